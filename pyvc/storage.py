"""Reading and writing of resources against a ghost file system or database.

The standard library and the clients of the databases are assumed to behave as
described by the `x_` methods.  Every access may fail once; the ghost state is
checked after every step, which covers a crash at any instant."""
import errno
import json
import os
import threading
import uuid

import z3

import natives
from core import *  # noqa: F403
from interp import MISSING
from lower import distinct, implementation
from natives import empty_term
from upper import Upper
from world import *  # noqa: F403
from world import sc_utils

OLD = z3.Const("old", BLOB)
NOFILE = z3.Const("nofile", BLOB)


class JsonText(Opaque):
    """The text of encoded data."""

    def __init__(self, blob):
        super().__init__("json text")
        self.blob = blob


class File(Opaque):
    def __init__(self, key, mode):
        super().__init__("file")
        self.key, self.mode, self.wrote, self.open = key, mode, None, True


class PathPart(Opaque):
    """Part of a path: directory or base name of a path."""


def encoded(t):
    """The encoding of a term; copies have the same encoding."""
    t = natives.strip(t)
    return ENC(t)


class Ghost(Upper):
    """Contracts of the encoder, shared by all resources."""

    def __init__(self, cls, **kw):
        super().__init__(cls, faults=True, **kw)
        for n in ("_load_from_resource", "_save_to_resource"):
            self.contracts.pop(n)
        self.wrote_while_bad = False
        self.unserializable = False
        self.unparsable = False
        self.externals = {
            json.dumps: self.x_dumps, json.dump: self.x_dump, json.loads: self.x_loads, json.load: self.x_load,
            uuid.uuid4: lambda a, k: Opaque("unique"), open: self.x_open,
            os.replace: self.x_replace, os.rename: self.x_replace, os.remove: self.x_remove, os.unlink: self.x_remove,
            os.path.split: lambda a, k: (self.part("dir", a[0]), self.part("base", a[0])),
            os.path.dirname: lambda a, k: self.part("dir", a[0]),
            os.path.basename: lambda a, k: self.part("base", a[0]),
            os.path.join: lambda a, k: PathPart("path", *a),
            os.path.abspath: lambda a, k: a[0], os.fspath: lambda a, k: a[0],
            os.path.exists: self.x_exists, os.path.isfile: self.x_exists,
            os.fsync: lambda a, k: self.inject("fsync"), os.getpid: lambda a, k: Opaque("process"),
            threading.get_ident: lambda a, k: Opaque("unique"),
        }  # fmt: skip
        self.target_term = z3.Const("filename", V)
        self.files = {"target": NOFILE if self.absent else OLD}
        self.threads = z3.Bool("threading")

    # ------------------------------------------------------------- content
    def content(self):
        return self.data().content

    def content_term(self, v):
        """The term of the data that is encoded."""
        if v is self.me or v is self.data():
            c = self.content()
            if isinstance(c, (CellMap, CellSeq)):
                return c.t
            return empty_term(c)
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, (DictObj, ListObj)):
            t = self.ip.n.as_term(v)
            if t is not None:
                return t
        raise Unsupported("encoding of computed data")

    def x_dumps(self, a, k):
        return JsonText(self.encode(a, k))

    def encode(self, a, k):
        k = dict(k)
        p = P()
        v = a[0] if a else k.pop("obj")
        cls = k.pop("cls", None)
        default = k.pop("default", None)
        for n in ("indent", "separators", "sort_keys"):
            k.pop(n, None)
        if k or len(a) > 1:
            raise Unsupported("option of json.dumps")
        handled = cls is sc_utils.SyncedCollectionJSONEncoder or default is sc_utils.default
        if not handled and not isinstance(v, Sym):
            if isinstance(v, Obj):
                raise PyRaise(Exc(TypeError, ("not serializable",)))
            raise Unsupported("encoding of collections")
        if self.may_fail(v) and p.maybe("content cannot be serialized"):
            self.unserializable = True
            raise PyRaise(Exc(TypeError, ("not serializable",), "content cannot be serialized"))
        return encoded(self.content_term(v))

    def may_fail(self, v):
        return True

    def x_dump(self, a, k):
        f = a[1]
        if not isinstance(f, File):
            raise Unsupported("json.dump")
        self.change(f.key, None)
        f.wrote = self.encode([a[0]], k)
        return None

    def x_loads(self, a, k):
        v = a[0]
        if not isinstance(v, (Blob, JsonText)) or k:
            raise Unsupported("json.loads")
        if P().maybe("content cannot be parsed"):
            self.unparsable = True
            raise PyRaise(Exc(json.JSONDecodeError, ("unparsable",), "content cannot be parsed"))
        self.parsed = v.term if isinstance(v, Blob) else v.blob
        return Sym(self.R, "resource")

    def x_load(self, a, k):
        return self.x_loads([self.read(a[0])], k)

    # ---------------------------------------------------------- file system
    def part(self, what, path):
        return PathPart(what, path)

    def parts(self, v):
        if isinstance(v, Opaque) and v.what in ("text", "path"):
            return [x for a in v.args for x in self.parts(a)]
        return [v]

    def name(self, path):
        """The key of a path: 'target' or the parts of another name."""
        if isinstance(path, Sym) and path.term.eq(self.target_term):
            return "target"
        ps = self.parts(path)
        key = []
        extra = same = own = False
        for x in ps:
            if isinstance(x, str):
                extra = extra or bool(x)
                key.append(x)
            elif isinstance(x, Opaque) and x.what in ("unique", "process"):
                extra = True
                own = own or x.what == "unique"
                key.append(id(x) if x.what == "unique" else "process")
            elif isinstance(x, Sym) and x.term.eq(self.target_term):
                same = same or not key
                own = True
                key.append("target")
            elif isinstance(x, PathPart) and x.what in ("dir", "base") and isinstance(x.args[0], Sym) and x.args[0].term.eq(self.target_term):
                same = same or x.what == "dir" and not key
                own = own or x.what == "base"
                key.append(x.what)
            else:
                raise Unsupported(f"path {x!r}")
        if not extra:
            if key == ["dir", "base"]:
                return "target"
            raise Unsupported("path")
        if any("/" in x for x in key if isinstance(x, str) and x not in ("target", "dir", "base")):
            raise Unsupported("path")
        P().prove("temporary files are in the directory of the file", same, {"C08", "C09", "C01"})
        P().prove("temporary files are not shared with other files", own, {"C08", "C09", "C13"})
        return tuple(key)

    def safe(self):
        return z3.Or(z3.Bool("write_concern"), self.threads)

    def change(self, key, blob):
        """The file has a new content; None is a part of a content."""
        self.files[key] = blob
        self.event("fs", "w", key)
        if key == "target":
            if blob is None:
                ok = z3.Not(self.safe())
            elif blob is NOFILE:
                ok = z3.Or(z3.Not(self.safe()), z3.BoolVal(self.absent))
            else:
                ok = z3.Or(blob == OLD, blob == self.goal())
            P().prove("the file is old or new as a whole at every instant", ok, {"C08", "C09"})

    def goal(self):
        return encoded(self.content_term(self.me))

    def x_open(self, a, k):
        k = dict(k)
        path = a[0] if a else k.pop("file")
        mode = a[1] if len(a) > 1 else k.pop("mode", "r")
        for n in ("encoding", "newline", "buffering"):
            k.pop(n, None)
        if k or len(a) > 2 or mode.replace("b", "").replace("t", "") not in ("r", "w", "x"):
            raise Unsupported("open")
        key = self.name(path)
        self.inject("open")
        if "r" in mode:
            if key != "target":
                raise Unsupported("reading of another file")
            if self.files[key] is NOFILE:
                e = Exc(FileNotFoundError, (), "the file does not exist")
                e.attrs["errno"] = errno.ENOENT
                raise PyRaise(e)
        else:
            self.change(key, None)
        return File(key, mode)

    def x_exists(self, a, k):
        key = self.name(a[0])
        return self.files.get(key, NOFILE) is not NOFILE

    def x_replace(self, a, k):
        src, dst = self.name(a[0]), self.name(a[1])
        self.inject("replace")
        blob = self.files.get(src, NOFILE)
        if blob is NOFILE:
            raise PyRaise(Exc(FileNotFoundError, (), "the file does not exist"))
        self.files[src] = NOFILE
        self.change(dst, blob)

    def x_remove(self, a, k):
        key = self.name(a[0])
        self.inject("remove")
        if self.files.get(key, NOFILE) is NOFILE:
            raise PyRaise(Exc(FileNotFoundError, (), "the file does not exist"))
        self.change(key, NOFILE)

    def inject(self, where):
        p = P()
        if self.faults and not self.fault_used and p.maybe(f"{where} fails"):
            self.fault_used = True
            e = Exc(PermissionError, (), f"{where} fails")
            e.attrs["errno"] = errno.EACCES
            if p.maybe("I/O error"):
                e = Exc(OSError, (), f"{where} fails")
                e.attrs["errno"] = errno.EIO
            raise PyRaise(e)

    def read(self, f):
        if f.mode.replace("b", "").replace("t", "") != "r" or not f.open:
            raise Unsupported("read")
        self.inject("read")
        return Blob(self.files[f.key])

    def opaque_attr(self, ip, obj, name):
        if isinstance(obj, JsonText):
            if name == "encode":
                return Native(name, lambda a, k: Blob(obj.blob))
        if isinstance(obj, File):
            f = getattr(self, "file_" + name, None)
            if f:
                return Native(name, lambda a, k: f(obj, *a, **k))
        return super().opaque_attr(ip, obj, name)

    def file___enter__(self, f):
        return f

    def file___exit__(self, f, *a):
        self.file_close(f)

    def file_close(self, f):
        if not f.open:
            return
        f.open = False
        if "r" not in f.mode and f.wrote is not None:
            self.inject("close")
            if self.files.get(f.key) is None:
                self.change(f.key, f.wrote)

    def file_flush(self, f):
        if f.wrote is not None:
            self.inject("flush")
            self.change(f.key, f.wrote)

    def file_fileno(self, f):
        return Opaque("descriptor")

    def file_read(self, f):
        return self.read(f)

    def file_write(self, f, v):
        if f.wrote is not None or "r" in f.mode or not f.open:
            raise Unsupported("write")
        self.inject("write")
        if isinstance(v, Blob):
            f.wrote = v.term
        elif isinstance(v, JsonText):
            f.wrote = v.blob
        else:
            raise Unsupported("write")
        return Opaque("length")


class Database(Ghost):
    """Clients of databases."""

    def __init__(self, cls):
        super().__init__(cls)
        self.stored = []

    def opaque_attr(self, ip, obj, name):
        f = getattr(self, f"{obj.what}_{name}", None)
        if f:
            return Native(name, lambda a, k: f(*a, **k))
        return super().opaque_attr(ip, obj, name)

    def ours(self, v, name):
        P().prove("the resource of the collection is accessed", v is self.me.attrs[name], {"C01", "C02", "C04"})

    # Redis
    def client_get(self, key):
        self.ours(key, "_key")
        self.inject("get")
        self.event("res", "r")
        return None if self.absent else Blob(OLD)

    def client_set(self, key, value):
        self.ours(key, "_key")
        self.inject("set")
        if not isinstance(value, (Blob, JsonText)):
            raise Unsupported("value")
        self.event("res", "w")
        self.stored.append(value.term if isinstance(value, Blob) else value.blob)
        return True

    # MongoDB
    def collection_find_one(self, filter):
        self.ours(filter, "_uid")
        self.inject("find")
        self.event("res", "r")
        if self.absent:
            return None
        self.parsed = OLD
        uid = self.me.attrs["_uid"].content
        c = PutMap(merge_uid(uid), P().vstr("_mongo"), Opaque("id"))
        return DictObj(PutMap(c, P().vstr("data"), Sym(self.R, "resource")))

    def collection_replace_one(self, filter, replacement, upsert=False):
        p = P()
        self.ours(filter, "_uid")
        p.prove("a document is created if there is none", upsert is True, {"C01"})
        if not isinstance(replacement, DictObj):
            raise Unsupported("document")
        c, uid = replacement.whole(), self.me.attrs["_uid"].content
        for k in uid.concrete_keys():
            p.prove("the document keeps its identifiers", zb(c.has(k)) if c.get(k) is uid.get(k) else False, {"C01", "C04"})
        d = p.vstr("data")
        p.prove("the document has the data", zb(c.has(d)), {"C01"})
        if p.maybe("content cannot be serialized"):
            import bson

            self.unserializable = True
            raise PyRaise(Exc(bson.errors.InvalidDocument, ("invalid",), "content cannot be serialized"))
        self.inject("replace")
        self.event("res", "w")
        self.stored.append(encoded(self.content_term(c.get(d))))
        return Opaque("result")

    # Zarr
    def group_require_dataset(self, name, shape=None, dtype=None, **k):
        self.ours(name, "_name")
        ok = k.get("overwrite") is True and shape in (1, (1,)) and dtype in ("object", object)
        P().prove("the array for the data replaces a previous one", ok, {"C01"})
        P().prove("the array uses the codec of the collection", k.get("object_codec") is self.me.attrs["_object_codec"], {"C12"})
        self.inject("create")
        self.event("res", "w")
        return Opaque("dataset")

    def group___getitem__(self, name):
        self.ours(name, "_name")
        self.inject("get")
        self.event("res", "r")
        if self.absent:
            raise PyRaise(Exc(KeyError, ("absent",)))
        return Opaque("dataset")

    def dataset___getitem__(self, i):
        if i != 0:
            raise Unsupported("index")
        self.inject("get")
        self.parsed = OLD
        return Sym(self.R, "resource")

    def dataset___setitem__(self, i, v):
        if i != 0:
            raise Unsupported("index")
        if P().maybe("content cannot be serialized"):
            self.unserializable = True
            raise PyRaise(Exc(TypeError, ("invalid",), "content cannot be serialized"))
        self.inject("set")
        self.event("res", "w")
        self.stored.append(encoded(self.content_term(v)))


def merge_uid(uid):
    m = EmptyMap()
    for k in uid.concrete_keys():
        m = PutMap(m, k, uid.get(k))
    return m


def is_json(cls):
    import synced_collections.backends.collection_json as cj

    return issubclass(cls, cj.JSONCollection)


def world(cls):
    w = (Ghost if is_json(cls) else Database)(cls)
    if is_json(cls):
        w.overlay[(cls, "_threading_support_is_active")] = SBool(w.threads)
    w.parsed = None
    w.events.clear()
    return w


def load_task(cls):
    def main(p):
        w = world(cls)
        fn, owner = implementation(cls, "_load_from_resource")
        try:
            r, exc = w.ip.run_function(fn, [w.me], {}, owner), None
        except PyRaise as e:
            r, exc = None, e.exc
        p.prove("loading does not change the resource", not [e for e in w.events if e[0] in ("fs", "res") and e[1] == "w"], {"C17", "C08"})
        p.prove("loading does not change the memory", w.content() is w.stale, {"C02"})
        if w.fault_used or w.unparsable:
            p.prove("failures are reported", exc is not None and bool(exc.injected), {"C02", "C07"}, "the resource could not be read")
            return "raised"
        p.prove("a readable resource is loaded", exc is None, {"C02", "C01"}, repr(exc))
        if exc is not None:
            return "raised"
        if w.absent:
            p.prove("a missing resource is empty", r is None, {"C02", "C03"})
            return "normal"
        p.prove("the result is the current content", isinstance(r, Sym) and r.term.eq(w.R) and w.parsed is OLD, {"C02", "C01", "C12", "C14"})
        return "normal"

    return main


def save_task(cls):
    def main(p):
        w = world(cls)
        fn, owner = implementation(cls, "_save_to_resource")
        try:
            w.ip.run_function(fn, [w.me], {}, owner)
            exc = None
        except PyRaise as e:
            exc = e.exc
        p.prove("saving does not change the memory", w.content() is w.stale, {"C01"})
        goal = encoded(w.content_term(w.me))
        if w.unserializable:
            p.prove("content that cannot be serialized is reported", exc is not None and issubclass(exc.cls, (TypeError, ValueError)), {"C08", "C11"})
            if is_json(cls):
                was = NOFILE if w.absent else OLD
                p.prove("content that cannot be serialized leaves the file alone", w.files["target"] is was, {"C08"})
            return "raised"
        if exc is not None:
            p.prove("content is saved", bool(w.fault_used), {"C01", "C12"}, repr(exc))
            p.prove("failures are reported", exc.injected is not None, {"C01"}, repr(exc))
            return "raised"
        p.prove("failures are reported", not w.fault_used or (is_json(cls) and w.files["target"] is not None), {"C01"}, "the failure was not reported")
        if is_json(cls):
            t = w.files["target"]
            p.prove("the file has the content of the collection", t == goal if t is not None else False, {"C01", "C12", "C04", "C09"})
        else:
            ok = len(w.stored) == 1
            p.prove("the resource has the content of the collection", w.stored[-1] == goal if ok else False, {"C01", "C12", "C04"})
        return "normal"

    return main


def tasks():
    out = {}
    for n in distinct("_load_from_resource"):
        out[f"{n}._load_from_resource"] = (load_task, (n,))
    for n in distinct("_save_to_resource"):
        out[f"{n}._save_to_resource"] = (save_task, (n,))
    return out
