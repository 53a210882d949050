"""The environment of the interpreted code: shadows of the library's global
state, locks, the resource, and the contracts that callers are checked against.

A contract is applied wherever the function of that name is called; the tasks in
lower.py verify the bodies against the same contracts."""
import ast
import inspect
import collections.abc as abc
import functools
import glob
import json
import os
import sys
import threading
import types
import warnings

import z3

import natives
from core import *  # noqa: F403
from core import ABSENT, BOOLS, INTS
from interp import MISSING, Interp, UnknownC, is_function
from natives import SSlice, TermV, strip  # noqa: F401

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import synced_collections  # noqa: E402
from synced_collections.data_types import synced_collection as sc_mod  # noqa: E402
from synced_collections import errors as sc_errors  # noqa: E402
from synced_collections import utils as sc_utils  # noqa: E402

SyncedCollection = synced_collections.SyncedCollection
LOCK_TYPES = (type(threading.RLock()), type(threading.Lock()))
ROOT = os.path.realpath(os.path.dirname(synced_collections.__file__))
if not ROOT.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"the library is imported from {ROOT}, not from {REPO}")


def valid(t, family):
    """Formula: a value may be stored."""
    P().know(t)
    return {"json": JSONOK(t), "attr": z3.And(JSONOK(t), NODOT(t)), "strkey": STRKEY(t)}[family]


class CheckedMap(MapC):
    """A mapping that a validator has accepted."""

    def __init__(self, base, pred):
        super().__init__()
        self.base, self.pred = base, pred

    def _has(self, k):
        return self.base.has(k)

    def _get(self, k):
        v = self.base.get(k)
        if P().fork(zb(self.base.has(k)), "present"):
            P().assume(self.pred.key(k))
            self.pred.assume_value(v)
        return v

    def concrete_keys(self):
        return self.base.concrete_keys()

    def length(self):
        return self.base.length()


class CheckedSeq(SeqC):
    def __init__(self, base, pred):
        super().__init__()
        self.base, self.pred = base, pred

    def length(self):
        return self.base.length()

    def _at(self, i):
        v = self.base.at(i)
        self.pred.assume_value(v)
        return v


class Predicate:
    """One of JSONOK, NODOT and STRKEY on any value."""

    def __init__(self, f):
        self.f = f

    def key(self, k):
        c = kind(k) == STR
        if self.f is NODOT:
            c = z3.And(c, z3.Not(P().strpred("contains", ".", k)))
        return c

    def assume_value(self, v):
        if isinstance(v, (Sym, Cell)):
            P().know(term(v))
            P().assume(self.f(term(v)))

    def decide(self, v):
        """Fork on the predicate; containers are marked as checked."""
        p = P()
        if isinstance(v, Sym):
            p.know(v.term)
            return p.fork(self.f(v.term), f"{self.f.name()} data")
        if isinstance(v, Cell):
            return not v.invalid
        if isinstance(v, DictObj):
            ks = v.whole().concrete_keys()
            if ks is not None:
                for k in ks:
                    p.know(k)
                    if not p.fork(self.key(k), "valid key"):
                        return False
                    if not self.decide(v.content.get(k)):
                        return False
                return True
            c = v.whole()
            while isinstance(c, CheckedMap):
                c = c.base
            if isinstance(c, DataMap):
                return self.decide(Sym(c.t))
            if isinstance(c, PutMap):
                if not p.fork(self.key(c.k), "valid key") or not self.decide(c.v):
                    return False
                if self.decide(DictObj(c.base)):
                    return True
                # the item that is not accepted may be the one that is replaced
                if p.maybe("invalid item is replaced"):
                    v.content = CheckedMap(v.content, self)
                    return True
                return False
            if p.maybe("accepted"):
                v.content = CheckedMap(v.content, self)
                return True
            k = p.fresh("badkey")
            p.know(k)
            p.assume(zb(c.has(k)))
            x = c.get(k)
            if p.fork(self.key(k), "valid key") and self.decide(x):
                raise Infeasible
            return False
        if isinstance(v, ListObj):
            items = v.whole().concrete()
            if items is not None:
                return all(self.decide(x) for x in items)
            c = v.whole()
            if isinstance(c, DataSeq):
                return self.decide(Sym(c.t))
            if isinstance(c, SliceSeq):
                # a part of accepted data is accepted
                b = c.base
                if isinstance(b, DataSeq) and p.entails(self.f(b.t)):
                    return True
                if isinstance(b, CheckedSeq) and b.pred.f is self.f:
                    return True
            if p.maybe("accepted"):
                v.content = CheckedSeq(v.content, self)
                return True
            i = p.fresh("badindex", INTS)
            p.assume(z3.And(0 <= i, i < c.length()))
            if self.decide(c.at(i)):
                raise Infeasible
            return False
        return True


# The attributes whose value before a call is described by `make_receiver`.
MODELLED = {
    "_data", "_root", "_suspend_sync", "_load_and_save", "_filename", "_write_concern", "_client", "_key",
    "_collection", "_uid", "_group", "_name", "_object_codec", "_count", "_cls", "_buffered_collection",
    "_buffer_capacity", "_original_buffer_capacity", "buffered",
}  # fmt: skip
MUTABLE = (Heap, Opaque, dict, list, set)


@functools.cache
def changing_names():
    """Names of the attributes that code of the library sets outside constructors."""
    names = set()
    for path in glob.glob(os.path.join(ROOT, "**", "*.py"), recursive=True):
        with open(path) as f:
            tree = ast.parse(f.read())
        constructors = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == "__init__"]
        skipped = {id(n) for c in constructors for n in ast.walk(c)}
        for n in ast.walk(tree):
            if id(n) in skipped:
                continue
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                names.add(n.attr)
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__"):
                names.update(a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str))
    return names

# The parameters that the contracts speak of.
PARAMETERS = {
    "get_type": ("obj",), "_detach": ("data",), "json_format_validator": ("data",), "require_string_key": ("data",),
    "no_dot_in_key": ("data",), "json_attr_dict_validator": ("data",), "_convert_numpy": ("data",),
    "_from_base": ("data", "parent"), "_update": ("data", "_validate"), "_flush": ("force",), "_flush_buffer": ("force",),
}  # fmt: skip
DEFAULTS = {"force": False, "_validate": True, "data": None}


class World:
    """Shared by all tasks; subclasses define contracts."""

    def __init__(self):
        self.overlay = {}
        self.shadows = {}
        self.keep = []
        self.held = {}  # lock -> count
        self.sections = {}
        self.section_no = 0
        self.events = []
        self.executed = P().results.executed
        self.fault_used = False
        self.SyncedCollection = SyncedCollection
        self.ip = Interp(self)
        self.contracts = {}
        self.externals = {}
        self.lazy = 0
        self.setup = False  # the state before the verified call is made
        self.atomic = 0  # inside of an atomic operation of a dict
        self.named = []  # attributes of symbolic names that were set or deleted

    # ----------------------------------------------------------- real values
    def wrap(self, v, cls=None, name=None):
        if v is None or isinstance(v, (bool, int, str, float, bytes, frozenset, type, types.FunctionType, types.ModuleType)):
            return v
        key = id(v)
        if key in self.shadows:
            return self.shadows[key]
        if isinstance(v, LOCK_TYPES):
            s = Lock(name or "lock")
        elif isinstance(v, (dict, list)) and not v and not isinstance(v, types.MappingProxyType):
            s = self.container(v, name)
        elif self.class_in_scope(type(v)) and not isinstance(v, BaseException):
            s = Obj(type(v), "shadow")
            self.shadows[key] = s
            self.keep.append(v)
            for n, x in vars(v).items():
                if n in changing_names() and n not in MODELLED:
                    s.forgotten.add(n)
                else:
                    s.attrs[n] = self.wrap(x, type(v), n)
            return s
        elif isinstance(v, types.MethodType) and self.in_scope(v.__func__):
            s = Bound(v.__func__, v.__self__ if isinstance(v.__self__, type) else self.wrap(v.__self__))
        else:
            return v
        self.shadows[key] = s
        self.keep.append(v)
        return s

    def container(self, v, name):
        """An empty container of a class or module: what it holds now is unknown."""
        s = DictObj() if isinstance(v, dict) else ListObj()
        if name not in ("_locks", "_buffer", "_buffered_collections", "_original_buffer_capacitys"):
            s.content = UnknownC()
        return s

    def in_scope(self, fn):
        code = getattr(fn, "__code__", None)
        if code is None:
            return False
        f = code.co_filename
        return f.startswith(ROOT + os.sep) or f == "<frozen _collections_abc>" or f.endswith("contextlib.py")

    def class_in_scope(self, cls):
        return getattr(cls, "__module__", "").split(".")[0] == "synced_collections"

    def is_synced_class(self, cls):
        return isinstance(cls, type) and issubclass(cls, SyncedCollection)

    def entered(self, fn):
        if not self.setup and fn.__code__.co_filename.startswith(ROOT):
            self.executed.add(f"{fn.__module__}.{fn.__qualname__}")

    # ----------------------------------------------------------------- hooks
    def attr_hook(self, ip, obj, name):
        return MISSING

    def class_write(self, cls, name, value):
        if name not in ("_CURRENT_BUFFER_SIZE", "_BUFFER_CAPACITY"):
            raise Unsupported(f"class attribute {name} is not part of the modelled state")

    def attr_write(self, ip, obj, name, value):
        pass

    def construct(self, ip, cls, args, kwargs):
        return MISSING

    def while_hook(self, ip, s, f):
        return False

    def contract(self, ip, fn, self_, args, kwargs):
        c = self.contracts.get(getattr(fn, "__name__", None))
        if c is None or not fn.__code__.co_filename.startswith(ROOT):
            if c is None or not fn.__code__.co_filename.endswith("contextlib.py"):
                return MISSING
        if not self.within(fn, self_, args, kwargs):
            raise Unsupported(f"arguments of {fn.__name__}")
        P().results.applied.add(f"{fn.__module__}.{fn.__qualname__}")
        return c(fn, self_, args, {**self.defaults(fn, self_, args, kwargs), **kwargs})

    def defaults(self, fn, self_, args, kwargs):
        """Default values that differ from those the contract speaks of."""
        out = {}
        names = [x for x in inspect.signature(fn).parameters.values()][0 if self_ is None else 1 :]
        for x in names[len(args) :]:
            if x.name in DEFAULTS and x.name not in kwargs and x.default is not DEFAULTS[x.name] and x.default is not x.empty:
                out[x.name] = x.default
        return out

    def within(self, fn, self_, args, kwargs):
        """Whether the contract of a function speaks of these arguments."""
        known = PARAMETERS.get(fn.__name__, ())
        if len(args) > len(known) or not set(kwargs) <= set(known):
            return False
        code = fn.__code__
        names = code.co_varnames[: code.co_argcount][0 if self_ is None else 1 :]
        return all(n == k for n, k in zip(names[1 : len(args)], known[1 : len(args)]))

    def ghost(self):
        return (tuple(sorted((str(l), n) for l, n in self.held.items() if n)), len([e for e in self.events if e[0] != "mem"]))

    # ----------------------------------------------------------------- locks
    def rank(self, lock):
        n = str(lock.name)
        if "BUFFER" in n:
            return 0
        if "_cls_lock" in n:
            return 2
        return 1

    def acquire(self, lock):
        p = P()
        if not self.held.get(lock):
            others = [l for l, n in self.held.items() if n and l is not lock]
            if others and not self.lazy:
                ok = all(self.rank(l) < self.rank(lock) for l in others)
                p.prove("locks are acquired in a fixed order", ok, {"C10", "C09", "C13"})
            self.section_no += 1
            self.sections[lock] = self.section_no
        self._count(lock, 1)
        return True

    def release(self, lock):
        if not self.held.get(lock):
            P().prove("no lock is released that is not held", False, {"C10"})
            raise Infeasible
        self._count(lock, -1)

    def _count(self, lock, d):
        old = self.held.get(lock, 0)
        P().undo(lambda: self.held.__setitem__(lock, old))
        self.held[lock] = old + d

    def holding(self):
        return {l: self.sections[l] for l, n in self.held.items() if n}

    def event(self, what, rw, extra=None):
        if self.lazy:
            return
        self.events.append((what, rw, self.holding(), extra))

    def foreign_read(self, t):
        if self.lazy or not any(n for l, n in self.held.items() if self.rank(l) < 2):
            return
        P().know(t)
        P().prove("data is detached before it is read under a lock", DETACHED(t), {"C10", "C09"})

    def user_write(self, v):
        P().prove("arguments are not modified", False, {"C16"})

    # ------------------------------------------------------------ node values
    def cell_isinstance(self, v, T):
        node = isnode(v.view)
        k = kind(v.view)
        if T is SyncedCollection:
            return SBool(node)
        if isinstance(T, type) and self.is_synced_class(T):
            if issubclass(T, abc.Mapping):
                return SBool(k == MAP) if self.same_family(T) else False
            if issubclass(T, abc.Sequence):
                return SBool(k == SEQ) if self.same_family(T) else False
            return SBool(node)
        if T in (abc.Mapping, abc.MutableMapping):
            return SBool(k == MAP)
        if T is abc.Sequence:
            return SBool(z3.Or(k == SEQ, k == STR))
        if T is abc.MutableSequence:
            return SBool(k == SEQ)
        if T in (abc.Collection, abc.Iterable):
            return SBool(z3.Or(node, k == STR))
        if T in (dict, list, tuple, bytes):
            return False
        if natives.numpy is not None and isinstance(T, type) and (issubclass(T, natives.numpy.generic) or T is natives.numpy.ndarray):
            return False
        return SBool(z3.And(z3.Not(node), natives.Natives(self.ip).isinstance_formula(v.view, T)))

    def same_family(self, T):
        return True

    def cell_attr(self, ip, cell, name):
        if not P().fork(isnode(cell.view), "nested collection"):
            if not any(hasattr(T, name) for T in (str, int, float, bool, type(None))):
                raise PyRaise(Exc(AttributeError, (name,)))
            raise Unsupported(f"attribute {name} of a scalar")
        if name == "_to_base":
            return Native(name, lambda a, k: self.detached(cell.view))
        if name == "_update":
            return Native(name, lambda a, k: self.cell_update(cell, *a, **k))
        raise Unsupported(f"attribute {name} of a nested collection")

    def cell_elements(self, cell):
        """Iteration over an element of the data."""
        if not P().fork(isnode(cell.view), "nested collection"):
            if P().fork(kind(cell.view) == STR, "string"):
                raise Unsupported("characters of a string")
            raise PyRaise(Exc(TypeError))
        root = getattr(self, "root", None)
        count = root.attrs["_suspend_sync"].attrs["_count"] if root is not None else 0
        if isinstance(count, SInt) or count < 1:
            raise Unsupported("iteration over a nested collection that is synchronised")
        if not P().fork(kind(cell.view) == SEQ, "sequence"):
            raise Unsupported("keys of a nested collection")
        c = CellSeq(cell.view)
        c.invalid = cell.invalid
        return c

    def detached(self, t):
        d = DET(t)
        P().know(d)
        if not P().entails(kind(d) != MAP):
            P().assume(z3.Implies(kind(d) == MAP, natives.ISDICT(d)))
        P().assume(z3.Implies(kind(d) == SEQ, natives.ISLIST(d)))
        return Sym(d, "detached")

    def cell_update(self, cell, data=None, _validate=False):
        """Contract of _update for a nested node."""
        p = P()
        if data is None:
            return None
        t = self.data_term(data)
        if p.fork(kind(t) == NONE, "None"):
            return None
        if not p.fork(NORM_KIND(t) == kind(cell.view), "same kind"):
            raise PyRaise(Exc(ValueError, ("Unsupported type",)))
        if not p.fork(valid(t, self.family), "valid data"):
            p.undo(lambda: setattr(cell, "invalid", False))
            cell.invalid = True
            if self.ip.truth(_validate):
                cell.set_view(NORM(t))
                return None
            raise PyRaise(Exc(ValueError if p.maybe("value error") else TypeError, ("invalid",)))
        cell.set_view(NORM(t))
        return None

    def data_term(self, v):
        if isinstance(v, (Sym, Cell)):
            return term(v)
        t = natives.Natives(self.ip).as_term(v)
        if t is None:
            raise Unsupported("term of computed data")
        P().know(t)
        return t

    def find(self, content, v):
        """Index of the first element that equals v, or -1."""
        if isinstance(content, LitSeq) and not content.items:
            return z3.IntVal(-1)
        t = strip(term(v))
        c = content.t if isinstance(content, (CellSeq, DataSeq)) else None
        if c is None:
            raise Unsupported("search in a computed list")
        i = app("find", V, V, INTS)(c, t)
        P().assume(z3.And(i >= -1, i < LEN(c)))
        P().know(t)
        return i

    def last_key(self, content):
        c = content.t if isinstance(content, (CellMap, DataMap)) else None
        if c is None:
            return P().fresh("lastkey")
        return app("lastkey", V, V)(c)

    def term_attr(self, ip, obj, name):
        raise Unsupported(f"attribute {name} of a term")

    def term_item(self, ip, obj, k):
        raise Unsupported("item of a term")

    def blob_attr(self, ip, obj, name):
        raise Unsupported(f"attribute {name} of bytes")

    def opaque_attr(self, ip, obj, name):
        raise Unsupported(f"attribute {name} of {obj!r}")

    # -------------------------------------------------------------- externals
    def external(self, ip, f, name, args, kw):
        if isinstance(f, Sym):
            P().know(f.term)
            if P().fork(ISSC(f.term), "synced collection"):
                self.foreign_read(f.term)
                return self.detached(f.term)
            raise PyRaise(Exc(TypeError, ("not callable",)))
        if isinstance(f, Cell):
            return self.detached(f.view)
        if f in (threading.RLock, threading.Lock):
            return Lock("thread" if not self.ip.stack else self.ip.stack[-1].qualname)
        if f is warnings.warn:
            return None
        if getattr(f, "__module__", "").split(".")[0] == "numcodecs":
            return Opaque("codec")
        try:
            h = self.externals.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(args, kw)
        if natives.numpy is not None and f is natives.numpy.iscomplexobj:
            return SBool(app("iscomplexobj", V, BOOLS)(term(args[0])))
        return MISSING


def NORM_KIND(t):
    return kind(NORM(t))
