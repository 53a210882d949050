"""Locks of resources: registration, acquisition and the change of a filename.

Other threads are part of these contracts: whenever the lock of the current file
is not held, another thread may point the collection to a different file, and
other threads register locks at any time.  The setter of the filename and the
registration guarantee in turn what the others rely on."""
import inspect

import z3

from core import *  # noqa: F403
from core import BOOLS
from interp import BreakSig, ContinueSig, MISSING, POISON, assigned_names
from lower import distinct, implementation
from upper import Upper
from world import *  # noqa: F403

LOCKED = app("locked", V, BOOLS)


class Locks(Upper):
    def __init__(self, cls):
        super().__init__(cls, faults=False)
        p = P()
        self.table, self.atomic_events = self.ip.cls_lookup(cls, "_locks")[0], []
        if not isinstance(self.table, DictObj):
            raise Unsupported("_locks")
        self.by_file = {}
        self.first = self.me.attrs["_filename"]
        self.before = FunMap(LOCKED, self.lock_of)
        self.table.content = self.before
        self.table.watch = lambda rw: self.atomic_events.append((rw, self.holding(), self.atomic))

    def lock_of(self, t):
        for u, lock in self.by_file.values():
            if P().entails(u == t):
                return lock
        self.by_file[t.get_id()] = t, Lock("file")
        return self.by_file[t.get_id()][1]


def entry(w, k):
    """The lock in the table for a file, or None."""
    if not P().fork(zb(w.table.content.has(k)), "registered"):
        return None
    return w.table.content.get(k)


# ------------------------------------------------------------------ registration
def register_task(cls):
    def main(p):
        w = Locks(cls)
        fn, owner = implementation(cls, "_register_lock")
        w.ip.run_function(fn, [w.me] + [w.first] * (len(inspect.signature(fn).parameters) - 1), {}, owner)
        file = w.first.term
        known = p.fork(LOCKED(file), "already registered")
        lock = entry(w, file)
        p.prove("the file has a lock", isinstance(lock, Lock), {"C09", "C10"})
        if known:
            p.prove("a lock is never replaced", lock is w.lock_of(file), {"C09", "C10"})
        k = z3.Const("kappa", V)
        p.know(k)
        if p.fork(LOCKED(k), "other file registered"):
            other = w.lock_of(k)
            p.prove("locks of other files are kept", entry(w, k) is other, {"C10", "C09"})
        p.prove("all locks are released", not any(w.held.values()), {"C10"})
        check_atomic(w)
        return "normal"

    return main


def creation_task(cls):
    def main(p):
        w = Locks(cls)
        kw = w.resource_arguments(cls)
        new = kw["filename"] = Sym(z3.Const("newname", V))
        p.know(new.term)
        p.assume(kind(new.term) == STR)
        w.ip.instantiate(cls, [], kw)
        known = p.fork(LOCKED(new.term), "already registered")
        lock = entry(w, new.term)
        p.prove("the file has a lock", isinstance(lock, Lock), {"C09", "C10", "C14"})
        if known:
            p.prove("a lock is never replaced", lock is w.lock_of(new.term), {"C09", "C10"})
        k = z3.Const("kappa", V)
        p.know(k)
        if p.fork(LOCKED(k), "other file registered"):
            other = w.lock_of(k)
            p.prove("locks of other files are kept", entry(w, k) is other, {"C10", "C09"})
        p.prove("all locks are released", not any(w.held.values()), {"C10"})
        check_atomic(w)
        return "normal"

    return main


def check_atomic(w):
    """A lock is only added in the critical section that found it missing."""
    ev = w.atomic_events
    if not any(rw == "w" for rw, _, _ in ev):
        return
    ok = all(at for rw, _, at in ev if rw == "w")
    if not ok:
        cls_lock = w.ip.getattr(w.me, "_cls_lock")
        sections = {h.get(cls_lock) for rw, h, at in ev if not at}
        ok = len(sections) == 1 and None not in sections
    P().prove("locks are looked up and added in one critical section", ok, {"C09", "C10", "C13"})


# ------------------------------------------------------------------- acquisition
class Interference(Locks):
    """Other threads may change the filename while its lock is not held."""

    def __init__(self, cls):
        super().__init__(cls)
        self.current = self.first
        self.changes = 0
        P().assume(LOCKED(self.current.term))
        self.lock_of(self.current.term)

    def attr_hook(self, ip, obj, name):
        if obj is getattr(self, "me", None) and name == "_filename" and hasattr(self, "current"):
            self.interfere()
            return self.current
        return MISSING

    def interfere(self):
        p = P()
        if self.held.get(self.lock_of(self.current.term)):
            return
        if p.maybe("another thread changes the filename"):
            self.changes += 1
            t = z3.Const(f"filename{self.changes}", V)
            p.know(t)
            p.assume(z3.And(kind(t) == STR, LOCKED(t), t != self.current.term))
            self.current = Sym(t)

    def acquire(self, lock):
        if hasattr(self, "current"):
            self.interfere()
        return super().acquire(lock)

    def while_hook(self, ip, s, f):
        """Partial correctness: one iteration from any state in which no lock
        of this call is held and the file is arbitrary."""
        p = P()
        for n in assigned_names(s.body):
            f.locals[n] = POISON
        p.prove("no lock is held while retrying", not any(self.held.values()), {"C10", "C09"})
        if not ip.truth(ip.eval(s.test, f)):
            ip.block(s.orelse, f)
            return True
        try:
            ip.block(s.body, f)
        except BreakSig:
            return True
        except ContinueSig:
            pass
        p.prove("no lock is held while retrying", not any(self.held.values()), {"C10", "C09"})
        raise Infeasible


def acquire_task(cls):
    def main(p):
        w = Interference(cls)
        fn, owner = implementation(cls, "_acquire_thread_lock")
        w.ip.run_function(fn, [w.me], {}, owner)
        lock = w.lock_of(w.current.term)
        held = {l: n for l, n in w.held.items() if n}
        p.prove("exactly the lock of the current file is held", held == {lock: 1}, {"C09", "C10", "C14"})
        return "normal"

    return main


# ------------------------------------------------------------- change of filename
class Rename(Locks):
    def attr_write(self, ip, obj, name, value):
        super().attr_write(ip, obj, name, value)
        if obj is getattr(self, "me", None) and name == "_filename" and hasattr(self, "first"):
            held = self.held.get(self.lock_of(obj.attrs["_filename"].term))
            P().prove("the filename changes under the lock of the previous file", bool(held), {"C09", "C10"})
            if isinstance(value, Sym):
                P().prove("a file has a lock before a collection refers to it", isinstance(entry(self, value.term), Lock), {"C10"})


def rename_task(cls):
    def main(p):
        w = Rename(cls)
        new = Sym(z3.Const("newname", V))
        p.know(new.term)
        p.assume(z3.And(kind(new.term) == STR, LOCKED(w.first.term)))
        old = w.lock_of(w.first.term)

        def acquire(fn, self_, a, k):
            w.acquire(w.lock_of(w.me.attrs["_filename"].term))

        w.contracts["_acquire_thread_lock"] = acquire
        w.ip.setattr(w.me, "filename", new)
        p.prove("the filename is the new one", w.ip.getattr(w.me, "filename") is new and w.me.attrs["_filename"] is new, {"C02", "C04"})
        p.prove("all locks are released", not any(w.held.values()), {"C10"})
        p.prove("the new file has a lock", isinstance(entry(w, new.term), Lock), {"C10"})
        p.prove("the lock of the previous file is kept", entry(w, w.first.term) is old, {"C10"})
        k = z3.Const("kappa", V)
        p.know(k)
        if p.fork(LOCKED(k), "other file registered"):
            other = w.lock_of(k)
            p.prove("locks of other files are kept", entry(w, k) is other, {"C10", "C09"})
        p.prove("renaming does not access the file", not [e for e in w.events if e[0] == "res"], {"C17"})
        return "normal"

    return main


# ------------------------------------------------- enabling and disabling of locks
class Toggle(Locks):
    """Locks are switched off and on while no operation is running."""

    def class_write(self, cls, name, value):
        if name not in ("_thread_lock", "_threading_support_is_active", "_BUFFER_LOCK", "_locks", "_cls_lock"):
            super().class_write(cls, name, value)


def toggle_task(cls, enabled):
    def main(p):
        w = Toggle(cls)
        p.assume(LOCKED(w.first.term))
        before = w.lock_of(w.first.term)
        for name in ("disable_multithreading", "enable_multithreading") if enabled else ("enable_multithreading", "disable_multithreading"):
            fn, owner = implementation(cls, name)
            w.ip.run_function(fn, [cls], {}, owner)
        lock = w.ip.getattr(w.me, "_thread_lock")
        active = w.ip.truth(w.ip.getattr(cls, "_threading_support_is_active"))
        p.prove("whether locks are used is known", active is enabled, {"C08", "C09"})
        if enabled:
            p.prove("collections have the lock of their file", lock is before, {"C09", "C10", "C14"})
        k = z3.Const("kappa", V)
        p.know(k)
        if p.fork(LOCKED(k), "other file registered"):
            other = w.lock_of(k)
            table = w.ip.getattr(cls, "_locks")
            kept = isinstance(table, DictObj) and p.fork(zb(table.content.has(k)), "kept") and table.content.get(k)
            p.prove("registered locks are kept", kept is other, {"C09", "C10"})
        if hasattr(cls, "_BUFFER_LOCK") and enabled:
            buffer_lock = w.ip.getattr(w.me, "_buffer_lock")
            p.prove("the buffer has a lock", isinstance(buffer_lock, Lock) and buffer_lock is not before, {"C13", "C14"})
            p.prove("the class and its collections have the same buffer lock", buffer_lock is w.ip.getattr(cls, "_BUFFER_LOCK"), {"C13"})
        if not enabled:
            for c in [lock, w.ip.getattr(w.me, "_buffer_lock")] if hasattr(cls, "_BUFFER_LOCK") else [lock]:
                w.ip.call(w.ip.getattr(c, "__enter__"), [], {})
                w.ip.call(w.ip.getattr(c, "__exit__"), [None, None, None], {})
        p.prove("all locks are released", not any(w.held.values()), {"C10"})
        return "normal"

    return main


def tasks():
    import optask

    out = {}
    for what, task in (("_register_lock", register_task), ("_acquire_thread_lock", acquire_task)):
        for n in distinct(what):
            c = optask.classes()[n]
            if c._supports_threading and implementation(c, what)[0] and "Attr" not in n and "filename" in dir(c):
                out[f"{n}.{what}"] = (task, (n,))
    for n, c in optask.classes().items():
        if isinstance(getattr(c, "filename", None), property) and c._supports_threading:
            out[f"{n}.__init__[lock]"] = (creation_task, (n,))
            out[f"{n}.filename.setter"] = (rename_task, (n,))
            out[f"{n}.enable_multithreading"] = (toggle_task, (n, True))
            out[f"{n}.disable_multithreading"] = (toggle_task, (n, False))
    return out
