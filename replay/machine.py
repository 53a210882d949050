"""Run a history of operations on real collections next to plain models.

A configuration (JSON-able) names the classes, the files and the objects; a
history is a JSON-able list of steps.  Together they are a replay file.

  ["op", handle, name, args]    operation through a handle
  ["keep", obj, path]           retain a child handle (numbered from 0)
  ["ext", file, data]           outside write of a whole resource
  ["enter", spec]               enter a context: ["obj", i], ["all", f, order],
                                ["cls", cap] (all classes) or ["cls", cap, n] (one class)
  ["exit", order]               leave the innermost context
  ["cap", n]                    set_buffer_capacity
  ["threads", on]               disable or enable multithreading

A handle is [obj, path] (navigated afresh) or ["h", n] (retained child).
"""
import copy
import json
import traceback

import backends
from backends import ABSENT, Resource, plain, same


class Failure(Exception):
    """The real code and the contract disagree."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


def trouble(stats):
    """Remember an exception that no case expects and go on, unless there are many."""
    stats["trouble"] = stats.get("trouble", 0) + 1
    stats["error"] = traceback.format_exc()
    if stats["trouble"] > 40:
        raise  # noqa: PLE0704


class Stop(Exception):
    """The rest of the history is outside the property being checked."""


def at(model, path):
    for p in path:
        model = model[p]
    return model


# ---------------------------------------------------------------- operations
def _reset_dict(d, data):
    if not isinstance(data, dict):
        raise ValueError("not a mapping")
    new = dict(data)
    d.clear()
    d.update(new)


def _reset_list(lst, data):
    if not isinstance(data, (list, tuple)):
        raise ValueError("not a sequence")
    lst[:] = list(data)


def _iadd(o, x):
    o += x


def sl(i):
    """["slice", a, b, c] stands for a slice in JSON-able histories."""
    if isinstance(i, (list, tuple)) and i and i[0] == "slice":
        return slice(*i[1:])
    return i


def _both(f):
    return (f, f)


STEP = [None]


def stepwise(it):
    """Consume an iterator with other threads in between; nested ones by kind."""
    out = []
    for x in it:
        out.append({} if hasattr(x, "keys") else [] if isinstance(x, list) or hasattr(x, "_data") else x)
        if STEP[0] is not None:
            STEP[0]()
    return out


DICT_MUT = {
    "setitem": _both(lambda o, k, v: o.__setitem__(k, v)),
    "delitem": _both(lambda o, k: o.__delitem__(k)),
    "pop": (lambda o, k, *d: o.pop(k, *d), lambda m, k, *d: m.pop(k, *(d or (None,)))),
    "popitem": _both(lambda o: list(o.popitem())),
    "clear": _both(lambda o: o.clear()),
    "update": _both(lambda o, *a: o.update(*a)),
    "update_iter": _both(lambda o, a: o.update(iter(a))),
    "update_kw": (lambda o, kw: o.update(**kw), lambda o, kw: o.update(kw)),
    "update_both": _both(lambda o, x, kw: o.update(x, **kw)),
    "setdefault": _both(lambda o, *a: o.setdefault(*a)),
    "reset": (lambda o, x: o.reset(x), _reset_dict),
    "attr_set": (lambda o, k, v: setattr(o, k, v), lambda o, k, v: o.__setitem__(k, v)),
    "attr_del": (lambda o, k: delattr(o, k), lambda o, k: o.__delitem__(k)),
}
DICT_READ = {
    "getitem": _both(lambda o, k: o[k]),
    "get": _both(lambda o, *a: o.get(*a)),
    "len": _both(len),
    "bool": _both(bool),
    "iter": _both(list),
    "iter_step": _both(lambda o: sorted(stepwise(iter(o)))),
    "contains": _both(lambda o, k: k in o),
    "keys": _both(lambda o: list(o.keys())),
    "values": _both(lambda o: list(o.values())),
    "items": _both(lambda o: [list(kv) for kv in o.items()]),
    "call": (lambda o: o(), copy.deepcopy),
    "eq": _both(lambda o, x: o == x),
    "req": _both(lambda o, x: x == o),
    "ne": _both(lambda o, x: o != x),
    "repr": (lambda o: eval(repr(o)), copy.deepcopy),
    "str": (lambda o: eval(str(o)), copy.deepcopy),
    "attr_get": (lambda o, k: getattr(o, k), lambda m, k: m[k]),
    "hasattr": (lambda o, k: hasattr(o, k), lambda m, k: k in m),
}
LIST_MUT = {
    "setitem": _both(lambda o, i, v: o.__setitem__(sl(i), v)),
    "slice_iter": _both(lambda o, i, v: o.__setitem__(sl(i), iter(v))),
    "delitem": _both(lambda o, i: o.__delitem__(sl(i))),
    "insert": _both(lambda o, i, v: o.insert(i, v)),
    "append": _both(lambda o, v: o.append(v)),
    "extend": _both(lambda o, v: o.extend(v)),
    "extend_iter": _both(lambda o, v: o.extend(iter(v))),
    "iadd": _both(_iadd),
    "iadd_iter": _both(lambda o, v: _iadd(o, iter(v))),
    "remove": _both(lambda o, v: o.remove(v)),
    "pop": _both(lambda o, *i: o.pop(*i)),
    "reverse": _both(lambda o: o.reverse()),
    "clear": _both(lambda o: o.clear()),
    "reset": (lambda o, v: o.reset(v), _reset_list),
}
LIST_READ = {
    "getitem": _both(lambda o, i: o[sl(i)]),
    "len": _both(len),
    "bool": _both(bool),
    "iter": _both(list),
    "reversed": _both(lambda o: list(reversed(o))),
    "iter_step": _both(lambda o: stepwise(iter(o))),
    "reversed_step": _both(lambda o: stepwise(reversed(o))),
    "contains": _both(lambda o, v: v in o),
    "index": _both(lambda o, *a: o.index(*a)),
    "count": _both(lambda o, v: o.count(v)),
    "call": (lambda o: o(), copy.deepcopy),
    "eq": _both(lambda o, x: o == x),
    "req": _both(lambda o, x: x == o),
    "ne": _both(lambda o, x: o != x),
    "lt": _both(lambda o, x: o < x),
    "le": _both(lambda o, x: o <= x),
    "gt": _both(lambda o, x: o > x),
    "ge": _both(lambda o, x: o >= x),
    "rlt": _both(lambda o, x: x < o),
    "rle": _both(lambda o, x: x <= o),
    "rgt": _both(lambda o, x: x > o),
    "rge": _both(lambda o, x: x >= o),
    "repr": (lambda o: eval(repr(o)), copy.deepcopy),
    "str": (lambda o: eval(str(o)), copy.deepcopy),
}
BULK = {"update", "update_iter", "update_kw", "update_both", "reset"}
# Reads whose result depends on the order of keys.
ORDERED = {"iter", "keys", "values", "items"}
DETACHED = {"call", "values", "items"}
REMOVED = {"pop", "popitem"}


def tables(model):
    return (DICT_MUT, DICT_READ) if isinstance(model, dict) else (LIST_MUT, LIST_READ)


def is_mutator(model, name):
    return name in tables(model)[0]


def lookup(model, name):
    mut, read = tables(model)
    return mut.get(name) or read.get(name)


def kindof(x):
    return "dict" if isinstance(x, dict) else "list" if isinstance(x, list) else "scalar"


def canon(x):
    return sorted(x, key=lambda v: json.dumps(v, sort_keys=True, default=str))


def scribble(x, seen=None):
    """Change every plain container reachable from x."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["__scribble"] = ["s"]
    elif isinstance(x, list):
        for v in list(x):
            scribble(v)
        x.append("__scribble")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def scribble_synced(x):
    """Write to every synced container reachable from a removed value."""
    if not isinstance(x, backends.SyncedCollection):
        return
    raw = x()
    it = list(raw) if isinstance(raw, dict) else range(len(raw))
    for k in it:
        scribble_synced(x[k])
    if isinstance(raw, dict):
        x["__scribble"] = [1]
    else:
        x.append("__scribble")


def hasnode(x):
    return isinstance(x, (dict, list))


def holds(got, want):
    """A resource that does not exist reads as an empty collection."""
    return same(got, want) or (got is ABSENT and want is not ABSENT and not want)


class World:
    def __init__(self, cfg, scratch):
        self.scratch = scratch
        self.cfg = cfg
        dcls, lcls = backends.pair(cfg["cls"])
        self.dcls, self.lcls = dcls, lcls
        self.checks = set(cfg["checks"])
        self.files = []  # Resource
        self.models = []
        self.stored = []
        self.objs = []
        self.fileof = []
        self.handles = []  # [obj, path, node, valid]
        self.stack = []
        self.flushable = False  # a capacity could force a flush
        for f in cfg["files"]:
            res = Resource(cfg["family"], scratch, cfg.get("wc", False))
            init = f["initial"]
            if f.get("present", True):
                res.write(init)
            elif len(init):
                raise ValueError("an absent resource means empty initial content")
            self.files.append(res)
            self.models.append(copy.deepcopy(init))
            self.stored.append(f.get("present", True))
            own = backends.pair(f["cls"]) if f.get("cls") else (dcls, lcls)
            cls = own[0] if isinstance(init, dict) else own[1]
            for _ in range(f.get("nobj", 1)):
                self.objs.append(res.open(cls))
                self.fileof.append(len(self.files) - 1)
        n = len(self.files)
        self.ordered = [cfg["family"] != "zarr" and self.fileof.count(i) == 1 for i in range(n)]
        self.dirty = [False] * n
        self.fps = [None] * n
        self.rootcls = {type(o) for o in self.objs}
        self.orig_cap = {}
        self.expected_cap = {}
        for c in self.rootcls:
            if hasattr(c, "get_buffer_capacity"):
                self.orig_cap[c] = self.expected_cap[c] = c.get_buffer_capacity()

    def close(self):
        """Leave all contexts, ignoring errors, so that runs do not interact."""
        while self.stack:
            ent = self.stack.pop()
            for ctx in ent[1]:
                try:
                    ctx.__exit__(None, None, None)
                except Exception:  # noqa: BLE001
                    pass
        for c, cap in self.orig_cap.items():
            c.set_buffer_capacity(cap)
        for c in self.rootcls:
            if c._supports_threading and not c._threading_support_is_active:
                c.enable_multithreading()

    # -- state
    def is_buffered(self, f):
        for ent in self.stack:
            if f in ent[2]:
                return True
        return False

    def nav(self, obj, path):
        node = self.objs[obj]
        f = self.fileof[obj]
        if self.is_buffered(f) and not self.accessed[f]:
            self.accessed[f] = True if path else None
        for p in path:
            node = node[p]
        return node

    def resolve(self, h):
        if h[0] == "h":
            if h[1] >= len(self.handles):
                return None, 0, [], False
            rec = self.handles[h[1]]
            return rec[2], rec[0], rec[1], rec[3]
        return None, h[0], h[1], True

    def _touch(self, f):
        """Record the fingerprint of a file whose first buffered access is about to occur."""

    # -- handle validity
    def _reassigned(self, tgt, name, args, key):
        """Whether an operation on a container reassigns or moves its item `key`."""
        if isinstance(tgt, dict):
            if name in ("clear", "reset", "popitem"):
                return True
            if name in ("setitem", "delitem", "pop", "attr_set", "attr_del"):
                return args[0] == key
            if name == "setdefault":
                return False
            keys = set()
            for a in args:
                keys |= {k for k, _ in a} if isinstance(a, list) else set(a)
            return key in keys
        n = len(tgt)
        if name in ("append", "extend", "extend_iter", "iadd", "iadd_iter"):
            return False
        if name in ("setitem", "delitem", "insert", "pop"):
            i = args[0] if args else -1
            if isinstance(i, int) and not isinstance(i, bool):
                i = i + n if i < 0 else i
                if name == "setitem":
                    return i == key
                return i <= key
        return True

    def _invalidate(self, f, obj, path, old, new, name, args):
        for rec in self.handles:
            if not rec[3] or self.fileof[rec[0]] != f:
                continue
            try:
                ok = True
                for i in range(len(rec[1]) + 1):
                    was, now = at(old, rec[1][:i]), at(new, rec[1][:i])
                    ok = ok and kindof(was) == kindof(now) != "scalar"
            except (KeyError, IndexError, TypeError):
                ok = False
            n = len(path)
            if ok and rec[0] == obj and len(rec[1]) > n and rec[1][:n] == list(path):
                if self._reassigned(at(old, path), name, args, rec[1][n]):
                    ok = False
            rec[3] = ok

    # -- steps
    def step(self, st):
        try:
            return self.effect(st)
        except (Failure, Stop):
            raise
        except Exception as e:  # noqa: BLE001
            # The steps only use what exists according to the model.
            if self.checks & {"exc", "readexc", "result", "readresult", "final"}:
                raise Failure("access", f"{st[0]} {st[1:]!r} raised {e!r}") from e
            raise Stop from e

    def effect(self, st):
        kind = st[0]
        if kind == "op":
            return self.op(st[1], st[2], st[3])
        if kind == "keep":
            try:
                m = at(self.models[self.fileof[st[1]]], st[2])
            except (KeyError, IndexError, TypeError):
                return "skipped"
            if not hasnode(m):
                return "skipped"
            self.handles.append([st[1], list(st[2]), self.nav(st[1], st[2]), True])
            return "ok"
        if kind == "ext":
            f = st[1]
            if self.is_buffered(f):
                return "skipped"
            if kindof(st[2]) != kindof(self.models[f]):
                return "skipped"
            old = self.models[f]
            self.files[f].write_unnoticed(st[2])
            self.models[f] = copy.deepcopy(st[2])
            self.stored[f] = True
            self.ordered[f] = False
            self._invalidate(f, None, [], old, self.models[f], None, [])
            return "ok"
        if kind == "enter":
            return self.enter(st[1])
        if kind == "exit":
            return self.exit(st[1] if len(st) > 1 else None, *st[2:])
        if kind == "cap":
            self.flushable = True
            for c in self.orig_cap:
                c.set_buffer_capacity(st[1])
                self.expected_cap[c] = st[1]
            self._size()
            return "ok"
        if kind == "threads":
            for c in self.rootcls:
                if c._supports_threading:
                    (c.enable_multithreading if st[1] else c.disable_multithreading)()
            return "ok"
        raise ValueError(kind)

    def enter(self, spec):
        if not self.orig_cap:
            return "skipped"
        before = [self.is_buffered(f) for f in range(len(self.files))]
        saved = {}
        if spec[0] == "obj":
            if spec[1] >= len(self.objs):
                return "skipped"
            node = self.objs[spec[1]]
            if len(spec) > 2:  # the context of a nested child
                try:
                    node = self.nav(spec[1], spec[2])
                    ctxs = [node.buffered]
                except (KeyError, IndexError, TypeError, AttributeError):
                    return "skipped"
            else:
                ctxs = [node.buffered]
            files = {self.fileof[spec[1]]}
        elif spec[0] == "all":
            ids = [i for i in range(len(self.objs)) if self.fileof[i] == spec[1]]
            ids.sort(key=lambda i: (spec[2] * (i + 1)) % 7)
            ctxs = [self.objs[i].buffered for i in ids]
            files = {spec[1]}
        else:
            ctxs = []
            classes = sorted(self.rootcls, key=lambda c: c.__name__)
            if len(spec) > 2:  # one of the classes
                classes = [classes[spec[2] % len(classes)]]
            for c in classes:
                args = () if spec[1] is None else (spec[1],)
                ctxs.append(c.buffer_backend(*args))
            files = {self.fileof[i] for i, o in enumerate(self.objs) if type(o) in classes}
            if spec[1] is not None:
                self.flushable = True
                saved = {c: self.expected_cap[c] for c in classes}
        for c in ctxs:
            c.__enter__()
        for c in saved:
            self.expected_cap[c] = spec[1]
        kind = "cls" if spec[0] == "cls" else "obj"
        self.stack.append((kind, ctxs, files, spec, saved))
        for f, was in enumerate(before):
            if not was and self.is_buffered(f):
                self.dirty[f] = False
                self.accessed[f] = False
                self.fps[f] = self.files[f].fingerprint()
        self._size()
        return "ok"

    def exit(self, order, raising=False):
        """Leave the innermost context, possibly because of an exception of the block."""
        if not self.stack:
            return "skipped"
        before = [self.is_buffered(f) for f in range(len(self.files))]
        kind, ctxs, files, spec, saved = self.stack.pop()
        if kind == "obj" and order:
            ctxs = list(reversed(ctxs))
        err = None
        for c in ctxs:
            try:
                c.__exit__(*((RuntimeError, RuntimeError("block"), None) if raising else (None,) * 3))
            except Exception as e:  # noqa: BLE001
                err = err or e
        if err is not None:
            if self.checks & {"exit", "backend"}:
                raise Failure("exit", f"leaving {spec!r} raised {err!r}")
            raise Stop
        self.expected_cap |= saved
        if "capacity" in self.checks:
            for c, cap in self.expected_cap.items():
                if c.get_buffer_capacity() != cap:
                    raise Failure(
                        "capacity",
                        f"capacity is {c.get_buffer_capacity()} after leaving {spec!r}, expected {cap}",
                    )
        for f, was in enumerate(before):
            if was and not self.is_buffered(f):
                self._flushed(f, f"leaving {spec!r}")
        self._size()
        return "ok"

    def _flushed(self, f, what):
        fp = self.files[f].fingerprint()
        if "readonly" in self.checks and not self.dirty[f] and fp != self.fps[f]:
            raise Failure("readonly", f"{what} wrote file {f} although it was only read")
        if self.checks & {"backend", "flushed"}:
            want = self.models[f] if self.stored[f] else ABSENT
            got = self.files[f].read()
            if not holds(got, want):
                raise Failure("backend", f"{what}: file {f} holds {got!r}, expected {want!r}")
        self.dirty[f] = False

    def _size(self):
        if "size" not in self.checks:
            return
        for c in self.orig_cap:
            n = c.get_current_buffer_size()
            if n < 0 or (self.stack and n > c.get_buffer_capacity()):
                raise Failure("size", f"size {n} with capacity {c.get_buffer_capacity()}")
            if not self.stack and n != 0:
                raise Failure("size", f"size {n} outside of any context")
            ref = self.expected_sizes(c)
            if ref is not None and n not in ref:
                raise Failure("size", f"reported size {n}, expected {sorted(ref)}")

    def expected_sizes(self, c):
        """Sizes allowed by the buffered files (None if not determined)."""
        serialized = "Memory" not in c.__name__
        parts = []
        optional = []
        for f in range(len(self.files)):
            if not any(
                type(self.objs[i]) is c and self.fileof[i] == f for i in range(len(self.objs))
            ):
                continue
            if not self.is_buffered(f):
                continue
            if serialized:
                if self.accessed[f] is not False:
                    (parts if self.accessed[f] else optional).append(len(json.dumps(self.models[f])))
            elif self.dirty[f]:
                parts.append(1)
        sums = {0}
        if not self.flushable:
            sums, parts = {sum(parts)}, []
        for p in parts + optional:
            sums |= {s + p for s in sums}
        return sums

    @property
    def accessed(self):
        return self.cfg.setdefault("_accessed", {f: False for f in range(len(self.files))})

    def op(self, handle, name, args):
        node, obj, path, valid = self.resolve(handle)
        if not valid or obj >= len(self.objs):
            return "skipped"
        f = self.fileof[obj]
        try:
            mtarget = at(self.models[f], path)
        except (KeyError, IndexError, TypeError):
            return "skipped"
        if not hasnode(mtarget):
            return "skipped"
        pair = lookup(mtarget, name)
        if pair is None:
            return "skipped"
        mut = is_mutator(mtarget, name)
        real_f, model_f = pair
        ordered = True
        real_args = copy.deepcopy(args)
        model_args = copy.deepcopy(args)
        for i, a in enumerate(args):
            if isinstance(a, dict) and a.get("$synced") is not None:
                o, p = a["$synced"]
                try:
                    real_args[i] = self.nav(o, p)
                    model_args[i] = copy.deepcopy(at(self.models[self.fileof[o]], p))
                    ordered = ordered and self.ordered[self.fileof[o]]
                except Exception:  # noqa: BLE001
                    return "skipped"
            elif isinstance(a, dict) and a.get("$peer") is not None:
                cls, content = a["$peer"]
                res = Resource("json", self.scratch)
                res.write(content)
                real_args[i] = res.open(next(c for q in backends.all_pairs(json_only=True) for c in q[1:] if c.__name__ == cls))
                model_args[i] = copy.deepcopy(content)
        newmodel = copy.deepcopy(self.models[f])
        mt = at(newmodel, path)
        checks = self.checks
        buffered = self.is_buffered(f)
        fp = self.files[f].fingerprint()
        rexc = rres = rplain = None
        try:
            if node is None:
                node = self.nav(obj, path)
            rres = real_f(node, *real_args)
            rplain = plain(rres)
        except Exception as e:  # noqa: BLE001
            rexc = e
        mexc = mres = None
        try:
            if name == "popitem" and not self.ordered[f] and rexc is None:
                mres = [rplain[0], mt.pop(rplain[0])]
            else:
                mres = model_f(mt, *model_args)
        except Exception as e:  # noqa: BLE001
            mexc = e
            newmodel = copy.deepcopy(self.models[f])
        what = f"{name}{tuple(args)!r} on {type(node).__name__} at {path!r}"
        if buffered:
            what += " (buffered)"
        expected = (
            AttributeError if name.startswith("attr_") and isinstance(mexc, KeyError) else type(mexc)
        )
        agree = (mexc is None) == (rexc is None) and (mexc is None or isinstance(rexc, expected))
        if not agree:
            if "exc" in checks or ("readexc" in checks and not mut) or ("mutexc" in checks and mut):
                raise Failure("exception", f"{what}: raised {rexc!r}, builtin raised {mexc!r}")
            raise Stop
        if mexc is None and ("result" in checks or ("readresult" in checks and not mut)):
            a, b = rplain, plain(mres)
            if isinstance(mtarget, dict) and name in ORDERED and not self.ordered[f]:
                a, b = canon(a), canon(b)
            if not same(a, b):
                raise Failure("result", f"{what}: returned {rplain!r}, expected {mres!r}")
        if "types" in checks and mexc is None and name in DETACHED:
            check_builtin(rres, what)
        if mut and mexc is None:
            self.stored[f] = True
            self.dirty[f] = True
            if name in BULK or not ordered:
                self.ordered[f] = False
        if buffered:
            # An operation that raised may not have used the buffer at all.
            if mexc is None:
                self.accessed[f] = True
            elif not self.accessed[f]:
                self.accessed[f] = None
        if not mut and "readonly" in checks and not self.flushable:
            if self.files[f].fingerprint() != fp:
                raise Failure("readonly", f"{what}: wrote to the resource")
        if mexc is not None and "rejected" in checks and not buffered:
            got = self.files[f].read()
            if not holds(got, self.models[f] if self.stored[f] else ABSENT):
                raise Failure("rejected", f"{what}: raised but the resource holds {got!r}")
        if mut and "backend" in checks and not buffered:
            want = newmodel if self.stored[f] else ABSENT
            got = self.files[f].read()
            if not holds(got, want):
                raise Failure("backend", f"{what}: resource holds {got!r}, expected {want!r}")
        if mut and "deferred" in checks and buffered and not self.flushable:
            if self.files[f].fingerprint() != self.fps[f]:
                raise Failure("deferred", f"{what}: file written before the context exited")
        old, self.models[f] = self.models[f], newmodel
        if mut:
            self._invalidate(f, obj, path, old, newmodel, name, args)
        if "alias" in checks and mexc is None:
            self._alias(f, obj, real_args, rres, name, what)
        if "family" in checks:
            for i, o in enumerate(self.objs):
                if self.fileof[i] == f:
                    check_family(o, self.models[f], what)
        self._size()
        return "ok"

    def _alias(self, f, obj, real_args, rres, name, what):
        for a in real_args:
            scribble(a)
        if name in DETACHED:
            scribble(rres)
        if name in REMOVED:
            for x in rres if isinstance(rres, list) else [rres]:
                scribble_synced(x)
        want = self.models[f]
        mem = plain(self.objs[obj])
        if not same(mem, want):
            raise Failure("alias", f"after changing arguments/results of {what}: memory {mem!r}, expected {want!r}")
        got = self.objs[obj]()
        if not same(got, want):
            raise Failure("alias", f"after changing arguments/results of {what}: content {got!r}, expected {want!r}")
        if not self.is_buffered(f):
            got = self.files[f].read()
            if not holds(got, want if self.stored[f] else ABSENT):
                raise Failure("alias", f"after changing arguments/results of {what}: resource {got!r}, expected {want!r}")

    def finish(self):
        """Compare everything once more at the end of a history."""
        if self.checks & {"result", "final"}:
            for i, o in enumerate(self.objs):
                f = self.fileof[i]
                try:
                    got = o()
                except Exception as e:  # noqa: BLE001
                    raise Failure("access", f"object {i} cannot be read at the end: {e!r}") from e
                if not same(got, self.models[f]):
                    raise Failure("result", f"object {i} shows {got!r} at the end, expected {self.models[f]!r}")


def check_builtin(x, what):
    """The value consists of built-in containers only."""
    t = type(x)
    if isinstance(x, backends.SyncedCollection):
        raise Failure("types", f"{what}: result contains a {t.__name__}")
    if isinstance(x, dict):
        for v in x.values():
            check_builtin(v, what)
    elif isinstance(x, (list, tuple)):
        for v in x:
            check_builtin(v, what)


def check_family(node, model, what, root=None):
    """Every container below a root is a synced collection of its family."""
    if root is None:
        root = node
    t = type(node)
    if not isinstance(node, backends.SyncedCollection):
        raise Failure("family", f"{what}: position holding {model!r} is a plain {t.__name__}")
    fam = backends.pair(type(root).__name__)
    if t not in fam:
        raise Failure("family", f"{what}: {t.__name__} inside of {type(root).__name__}")
    if node is not root and node._root is not root:
        raise Failure("family", f"{what}: a nested {t.__name__} belongs to another root")
    data = node._data
    it = list(data.items()) if isinstance(data, dict) else list(enumerate(data))
    for _, v in it:
        if isinstance(v, (dict, list, tuple)) or isinstance(v, backends.SyncedCollection):
            check_family(v, v, what, root)


def run(cfg, steps, scratch):
    """Run a history; returns the number of effective steps, raises Failure."""
    cfg = copy.deepcopy(cfg)
    cfg.pop("_accessed", None)
    w = World(cfg, scratch)
    n = 0
    try:
        for i, st in enumerate(steps):
            try:
                if w.step(st) != "skipped":
                    n += 1
            except Stop:
                return n
            except Failure as fl:
                fl.step = i
                raise
        w.finish()
    finally:
        w.close()
    return n
