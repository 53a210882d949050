"""The buffers: loading, saving, flushing, capacities and buffered contexts.

The state before a call is arbitrary within the invariant of the buffer:

- the size is the sum of what the entries contribute (encoded bytes, or one for
  each modified file) and does not exceed the capacity,
- an entry holds the current content of its file, the metadata of the file from
  before that content was read, and whether the content differs from the file,
- a collection of every buffered file is registered.

Every function is shown to preserve it.  The sum is split into the contribution
of the file at hand and the rest, which must not change."""
import errno
import hashlib
import os

import z3

import natives
import optask
from core import *  # noqa: F403
from core import BOOLS, INTS
from interp import BreakSig, ContinueSig, MISSING, POISON, assigned_names
from lower import implementation
from natives import FloatV, TermV, empty_term, ident, strip
from storage import Ghost, JsonText
from upper import SharedMemoryFileBufferedCollection, valid
from world import *  # noqa: F403
from world import sc_errors, sc_utils

DIGESTS = z3.DeclareSort("Digest")
DIGEST = z3.Function("digest", BLOB, DIGESTS)
UNDIGEST = z3.Function("undigest", DIGESTS, BLOB)
DEC = z3.Function("dec", BLOB, V)
INBUF = app("inbuffer", V, BOOLS)
REGISTERED = app("registered", V, BOOLS)
BUF = {"C05", "C06"}


def enc(t):
    """The encoding of normal data; different data has different encodings."""
    b = ENC(t)
    P().assume(z3.And(DEC(b) == t, BLEN(b) > 0))
    return b


def digest(b):
    """Assumption: different bytes have different hashes."""
    d = DIGEST(b)
    P().assume(z3.And(UNDIGEST(d) == b, d != natives.none_of(DIGESTS)))
    return d


class Hasher(Opaque):
    def __init__(self, *blobs):
        super().__init__("hasher")
        self.blobs = list(blobs)


class Version:
    """A version of the file: its content (None if there is no file) and stat."""

    def __init__(self, data, n):
        self.data = data
        self.size, self.mtime, self.inode = (z3.Int(f"{x}{n}") for x in ("size", "mtime_ns", "inode"))


class Stat(Opaque):
    def __init__(self, version):
        super().__init__("stat")
        self.version = version


class Fields(EmptyMap):
    """The end of the fields of an entry: others are not known."""

    def __init__(self, names):
        super().__init__()
        self.names = names

    def _has(self, k):
        if any(k.eq(P().vstr(n)) for n in self.names):
            return False
        raise Unsupported(f"field {k} of a buffer entry")


class Buffers(Ghost):
    def __init__(self, cls, buffered=True):
        self.shared = issubclass(cls, SharedMemoryFileBufferedCollection)
        self.tracking = False
        super().__init__(cls, buffered=buffered)
        p = P()
        self.contracts.update({
            "_load_from_resource": self.c_load, "_save_to_resource": self.c_save, "_flush_buffer": self.c_flush_buffer,
        })  # fmt: skip
        for n in ("_load_from_buffer", "_save_to_buffer"):
            self.contracts.pop(n)
        self.externals.update({
            os.stat: self.x_stat,
            os.path.getmtime: lambda a, k: self.stat_st_mtime(self.x_stat(a, k)),
            os.path.getsize: lambda a, k: self.stat_st_size(self.x_stat(a, k)),
        })  # fmt: skip
        for n in ("md5", "sha1", "sha256", "sha512", "blake2b"):
            self.externals[getattr(hashlib, n)] = lambda a, k: Hasher(*[x.term for x in a])
        self.file = self.target_term
        self.versions, self.writes, self.loaded = [], [], []
        self.encodable = {}
        self.reading = False
        self.interference = False
        self.checkpoint = None
        p.assume(z3.And(natives.HASHABLE(self.file), natives.HASHABLE(ident(self.me))))
        self.flushes = []
        self.other_entries, self.other_writes = {}, []
        self.buffer = self.table("_buffer")
        self.registered = self.table("_buffered_collections")
        self.registered.content = FunMap(lambda k: z3.And(k != ident(self.me), REGISTERED(k)), lambda k: Opaque("collection"))
        self.buffer.content = self.others = FunMap(lambda k: z3.And(k != self.file, INBUF(k)), self.other_entry)
        for t in (self.buffer, self.registered):
            t.watch = lambda rw: self.event("buf", rw)
        # the file
        self.kind = MAP if self.ismap else SEQ
        self.empty = empty_term(EmptyMap() if self.ismap else LitSeq([]))
        self.absent = getattr(self, "absent", False)
        self.disk = self.version(None if self.absent else self.R)
        self.rest, self.cap = z3.Int("rest"), z3.Int("capacity")
        p.assume(z3.And(self.rest >= 0, self.cap >= 0))
        self.objects = [self.me]

    def table(self, name):
        t = self.ip.cls_lookup(self.cls, name)[0]
        if not isinstance(t, DictObj):
            raise Unsupported(name)
        return t

    def version(self, data):
        v = Version(data, len(self.versions))
        for u in self.versions:
            # assumption: writing a file changes its size or modification time
            P().assume(z3.Or(v.size != u.size, v.mtime != u.mtime))
        self.versions.append(v)
        return v

    def datum(self, name):
        """Arbitrary valid content."""
        t = z3.Const(name, V)
        p = P()
        p.know(t)
        p.assume(z3.And(kind(t) == self.kind, NORM(t) == t, valid(t, self.family), DETACHED(t), z3.Not(ISSC(t))))
        return t

    def held_content(self, t):
        if t.eq(self.empty):
            return EmptyMap() if self.ismap else LitSeq([])
        return CellMap(t) if self.ismap else CellSeq(t)

    def other_entry(self, k):
        for t, e in self.other_entries.values():
            if P().entails(t == k):
                return e
        e = DictObj(Fields(()), watch=lambda rw: self.other_writes.append(rw) if rw == "w" else None)
        self.other_entries[k.get_id()] = k, e
        return e

    # ------------------------------------------------------------- pre-state
    def before(self, inside=None):
        """The buffer before the call; `inside` says whether it has the file."""
        p = P()
        self.setup = True
        self.inside = p.maybe("the file is in the buffer") if inside is None else inside
        self.dirty, self.entry, self.A = False, None, None
        self.peer = None
        if self.inside:
            self.make_entry()
            if not p.maybe("this collection is registered"):
                # then another one is
                p.assume(REGISTERED(z3.Const("peer", V)))
            else:
                self.registered.content = PutMap(self.registered.content, ident(self.me), self.me)
        else:
            self.A = self.empty if self.absent else self.R
            if self.absent:
                self.me.attrs["_data"].content = self.held_content(self.empty)
            else:
                self.me.attrs["_data"].content = self.held_content(self.M)
        self.data().watch = None
        size = self.rest + (self.contribution() if self.inside else 0)
        self.size0 = size
        p.assume(size <= self.cap)
        self.overlay[(self.cls, "_CURRENT_BUFFER_SIZE")] = SInt(size)
        self.overlay[(self.cls, "_BUFFER_CAPACITY")] = SInt(self.cap)
        self.events.clear()
        self.setup = False
        self.tracking = True
        self.fault_used = False

    def make_entry(self):
        p = P()
        # the file when it was loaded
        self.changed = p.maybe("the file was changed by others")
        now, was = self.disk, self.disk
        if self.changed:
            gone = p.maybe("the file did not exist")
            was = self.version(None if gone else self.datum("loaded"))
            if gone and self.absent:
                raise Infeasible
        origin = was.data if was.data is not None else self.empty
        self.disk = was
        faults, self.faults = self.faults, False
        self.metadata = self.ip.call(self.ip.getattr(self.me, "_get_file_metadata"), [], {})
        self.faults, self.disk = faults, now
        self.was = was
        self.dirty = p.maybe("the buffered content was modified")
        self.A = self.datum("A") if self.dirty else origin
        data = self.held_content(self.A)
        if self.shared:
            holder = self.me
            if p.maybe("another collection holds the data"):
                holder = self.peer = self.ip.instantiate(self.cls, [], self.resource_arguments(self.cls))
                self.me.attrs["_data"].content = self.held_content(self.M)
                self.objects.append(holder)
                holder.attrs["_data"].watch = None
            holder.attrs["_data"].content = data
            fields = {"collection": holder, "metadata": self.metadata, "modified": self.dirty}
        else:
            self.me.attrs["_data"].content = self.held_content(self.M)
            blob = enc(self.A)
            if not self.dirty:
                h = TermV(digest(blob))
            elif was.data is None and p.maybe("created by a save after a load"):
                h = None
            else:
                # the file had another content, or there was none
                other = enc(was.data if was.data is not None else term(None))
                p.assume(other != blob)
                h = TermV(digest(other))
            fields = {"contents": Blob(blob), "hash": h, "metadata": self.metadata}
        c = Fields(tuple(fields))
        for n, v in fields.items():
            c = PutMap(c, p.vstr(n), v)
        self.entry = DictObj(c)
        self.entry.watch = lambda rw: self.event("buf", rw)
        self.fields0 = fields
        self.buffer.content = PutMap(self.others, self.file, self.entry)

    def contribution(self):
        """What the entry adds to the size."""
        if self.shared:
            return z3.IntVal(1 if self.dirty else 0)
        return BLEN(enc(self.A))

    # ------------------------------------------------------------- externals
    def outside(self):
        """Another process writes the file."""
        if self.interference and self.tracking and P().maybe("another process writes the file now"):
            self.interference = False
            self.disk = self.version(self.datum("foreign"))

    def x_stat(self, a, k):
        path = a[0] if a else k["path"]
        if self.name(path) != "target":
            raise Unsupported("stat of another file")
        self.outside()
        self.inject("stat")
        if self.disk.data is None:
            e = Exc(FileNotFoundError, (), "the file does not exist")
            e.attrs["errno"] = errno.ENOENT
            raise PyRaise(e)
        return Stat(self.disk)

    def x_exists(self, a, k):
        if self.name(a[0]) != "target":
            raise Unsupported("another file")
        self.outside()
        return self.disk.data is not None

    def change(self, key, blob):
        P().prove("reading does not write files", not self.reading, {"C17"})
        raise Unsupported("a file is written by the buffer")

    def stat_st_size(self, s):
        return SInt(s.version.size)

    def stat_st_mtime_ns(self, s):
        return SInt(s.version.mtime)

    def stat_st_mtime(self, s):
        return FloatV("seconds", s.version.mtime)

    def stat_st_ino(self, s):
        return SInt(s.version.inode)

    def opaque_attr(self, ip, obj, name):
        if isinstance(obj, Stat):
            f = getattr(self, "stat_" + name, None)
            if f is None:
                raise Unsupported(name)
            return f(obj)
        if isinstance(obj, Hasher):
            if name == "update":
                return Native(name, lambda a, k: obj.blobs.append(a[0].term))
            if name in ("hexdigest", "digest"):
                return Native(name, lambda a, k: self.hexdigest(obj))
        if isinstance(obj, JsonText) and name == "encode":
            return Native(name, lambda a, k: Blob(obj.blob))
        return super().opaque_attr(ip, obj, name)

    def hexdigest(self, h):
        if len(h.blobs) != 1:
            raise Unsupported("hash of several parts")
        return TermV(digest(h.blobs[0]))

    def blob_attr(self, ip, obj, name):
        if name == "decode":
            return Native(name, lambda a, k: JsonText(obj.term))
        return super().blob_attr(ip, obj, name)

    def content_term(self, v):
        if v is None:
            return term(None)
        if isinstance(v, Sym):
            return strip(v.term)
        for o in self.objects:
            d = o.attrs["_data"]
            if v is o or v is d:
                c = d.content
                if isinstance(c, (CellMap, CellSeq)):
                    return strip(c.t)
                t = empty_term(c)
                if t is not None:
                    return t
        return super().content_term(v)

    def encode(self, a, k):
        super().encode(a, k)
        return enc(self.content_term(a[0] if a else k["obj"]))

    def may_fail(self, v):
        t = self.content_term(v)
        if t.get_id() in self.encodable or t.eq(term(None)):
            return False
        self.encodable[t.get_id()] = t
        # what was read from a file can be written
        return not any(x.data is not None and x.data.eq(t) for x in self.versions)

    def x_loads(self, a, k):
        v = a[0]
        if not isinstance(v, (Blob, JsonText)) or k:
            raise Unsupported("json.loads")
        t = DEC(v.term if isinstance(v, Blob) else v.blob)
        known = self.known(t)
        return Sym(t if known is None else known, "resource")

    def known(self, t):
        """The data that was encoded."""
        b = t.arg(0)
        return b.arg(0) if z3.is_app(b) and b.decl().eq(ENC) else None

    # -------------------------------------------------------------- contracts
    def c_load(self, fn, self_, a, k):
        self.outside()
        self.inject("load")
        self.loaded.append(self.disk)
        return None if self.disk.data is None else Sym(self.disk.data, "resource")

    def c_save(self, fn, self_, a, k):
        if self_ not in self.objects:
            raise Unsupported("another collection is saved")
        if not self.is_current(self_):
            P().prove("the collection of the file is saved", False, {"C04", "C05"})
        self.event("res", "w")
        self.inject("save")
        self.disk = self.version(self.content_term(self_))
        self.writes.append(self.disk)

    def is_current(self, o):
        v = o.attrs.get("_filename")
        return isinstance(v, Sym) and v.term.eq(self.file)

    def c_update(self, fn, self_, a, k):
        data = a[0] if a else k.get("data")
        if data is None:
            return None
        if self_ not in self.objects:
            raise Unsupported("_update of another collection")
        d = self_.attrs["_data"]
        if isinstance(data, Sym):
            d.replace(self.held_content(strip(data.term)))
        elif isinstance(data, (DictObj, ListObj)):
            t = self.ip.n.as_term(data)
            if t is None:
                raise Unsupported("_update with computed data")
            d.replace(self.held_content(strip(t)))
        else:
            raise Unsupported("_update")
        return None

    def c_to_base(self, fn, self_, a, k):
        if self_ not in self.objects:
            raise Unsupported("_to_base of another collection")
        return self.detached(self.content_term(self_))

    def c_flush_buffer(self, fn, self_, a, k):
        """A forced flush writes every modified file of the buffer that was not
        changed by others; afterwards the size is zero."""
        p = P()
        force = a[0] if a else k.get("force", False)
        self.flushes.append((self_, force, self.size()))
        P().prove("the buffer of the own class is flushed", self_ is self.cls, {"C05", "C13", "C15"})
        if self.checkpoint:
            self.checkpoint(force)
        self.event("buf", "w")
        self.overlay[(self.cls, "_CURRENT_BUFFER_SIZE")] = 0
        failed = p.maybe("a file was changed by others")
        now = self.now()
        if self.shared and not failed:
            if now is not None:
                m = p.vstr("modified")
                if now.content.get(m) is True:
                    now.content = PutMap(now.content, m, False)
        else:
            self.buffer.content = EmptyMap()
        if failed:
            e = Exc(sc_errors.BufferedError, (), "a file was changed by others")
            e.attrs["files"] = Opaque("files")
            raise PyRaise(e)
        return None

    # ------------------------------------------------------------- post-state
    def now(self):
        """The entry of the file."""
        p = P()
        c = self.buffer.content
        if not p.fork(zb(c.has(self.file)), "the file is in the buffer"):
            return None
        e = c.get(self.file)
        if not isinstance(e, DictObj):
            raise Unsupported("entry")
        ks = e.content.concrete_keys()
        want = {"collection", "metadata", "modified"} if self.shared else {"contents", "hash", "metadata"}
        if ks is None or {p_str(k) for k in ks} != want:
            raise Unsupported("fields of an entry")
        return e

    def field(self, e, n):
        return e.content.get(P().vstr(n))

    def size(self):
        v = self.ip.getattr(self.cls, "_CURRENT_BUFFER_SIZE")
        return v.term if isinstance(v, SInt) else z3.IntVal(v)

    def capacity(self):
        v = self.ip.getattr(self.cls, "_BUFFER_CAPACITY")
        return v.term if isinstance(v, SInt) else z3.IntVal(v)

    def holds(self, e):
        """The content that an entry holds, as a term or formula on it."""
        if self.shared:
            o = self.field(e, "collection")
            if o not in self.objects:
                raise Unsupported("collection of an entry")
            return self.content_term(o)
        b = self.field(e, "contents")
        if not isinstance(b, Blob):
            raise Unsupported("contents")
        return DEC(b.term)

    def is_dirty(self, e):
        """Formula: the entry will be written."""
        if self.shared:
            m = self.field(e, "modified")
            if not isinstance(m, (bool, SBool)):
                raise Unsupported("modified")
            return zb(m) if isinstance(m, bool) else m.term
        h, b = self.field(e, "hash"), self.field(e, "contents")
        if h is None:
            return z3.BoolVal(True)
        if not isinstance(h, TermV):
            raise Unsupported("hash")
        return h.term != digest(b.term)

    def same(self, a, b):
        r = self.ip.n.eq(a, b)
        return z3.BoolVal(r) if isinstance(r, bool) else r.term

    def stat_now(self):
        f, i, t, s = self.faults, self.interference, self.events, self.setup
        self.faults = self.interference = False
        self.events, self.setup = [], True
        try:
            return self.ip.call(self.ip.getattr(self.me, "_get_file_metadata"), [], {})
        finally:
            self.faults, self.interference, self.events, self.setup = f, i, t, s

    def disk_term(self):
        return self.disk.data if self.disk.data is not None else self.empty

    def check_size(self, e):
        """The size is what the entries contribute."""
        n = z3.IntVal(0)
        if e is not None:
            if self.shared:
                n = z3.If(self.is_dirty(e), 1, 0)
            else:
                n = BLEN(self.field(e, "contents").term)
        P().prove("the size of the buffer is exact", self.size() == self.rest + n, {"C15", "C13"})

    def check_frame(self):
        p = P()
        k = z3.Const("kappa", V)
        p.know(k)
        p.assume(k != self.file)
        c = self.buffer.content
        if p.fork(INBUF(k), "another file in the buffer"):
            ok = p.entails(zb(c.has(k))) and c.get(k) is self.other_entry(k) and not self.other_writes
            p.prove("entries of other files are kept", ok, BUF | {"C07", "C13", "C15"})
        else:
            p.prove("no entries of other files are added", z3.Not(zb(c.has(k))), BUF | {"C15"})
        j = z3.Const("lambda", V)
        p.know(j)
        p.assume(j != ident(self.me))
        p.prove("other collections stay registered", z3.Implies(REGISTERED(j), zb(self.registered.content.has(j))), BUF | {"C07", "C13"})

    def check_registered(self):
        c, p = self.registered.content, P()
        k = ident(self.me)
        mine = z3.And(zb(c.has(k)), z3.BoolVal(True))
        if p.fork(mine, "registered"):
            p.prove("the collection is registered", c.get(k) is self.me, BUF | {"C07", "C13"})
        else:
            p.prove("a collection of every file in the buffer is registered", self.inside, BUF | {"C07", "C13", "C15"})

    def check_locks(self):
        p = P()
        p.prove("all locks are released", not any(self.held.values()), {"C10", "C13"})
        for o, n, v in self.counters:
            now = o.attrs.get(n)
            same = (now.term if isinstance(now, SInt) else now) == (v.term if isinstance(v, SInt) else v)
            p.prove("counters are restored", same, {"C10", "C05"})
        self.check_sections()

    def check_sections(self):
        if getattr(self.cls, "_threading_support_is_active", False):
            lock = self.ip.getattr(self.me, "_buffer_lock")
            sections = {e[2].get(lock) for e in self.events if e[0] in ("buf", "res")}
            ok = len(sections) <= 1 and None not in sections
            P().prove("the buffer is accessed in one critical section of the buffer lock", ok, {"C13", "C14", "C09"})

    def class_write(self, cls, name, value):
        super().class_write(cls, name, value)
        if self.tracking and name in ("_CURRENT_BUFFER_SIZE", "_BUFFER_CAPACITY"):
            self.event("buf", "w")

    def unchanged(self, props):
        """Neither the file nor the buffer changed."""
        p = P()
        p.prove("the file is not written", not self.writes, props | {"C05", "C17"})
        p.prove("the size of the buffer is unchanged", self.size() == self.size0, {"C15"})
        e = self.now()
        if not self.inside:
            p.prove("no entry is added", e is None, props)
            return
        p.prove("the entry is kept", e is self.entry, props)
        if e is self.entry:
            for n, v in self.fields0.items():
                x = self.field(e, n)
                ok = x is v or (isinstance(x, (TermV, Blob)) and isinstance(v, type(x)) and x.term.eq(v.term))
                p.prove("the entry is unchanged", ok, props)
            p.prove("the buffered content is unchanged", self.holds(e) == self.A, props)


def p_str(k):
    for s, t in P().strs.items():
        if t.eq(k):
            return s
    return str(k)


def call(w, name, *args):
    fn, owner = implementation(w.cls, name)
    try:
        return w.ip.run_function(fn, [w.me, *args], {}, owner), None
    except PyRaise as e:
        return None, e.exc


# --------------------------------------------------------------------- metadata
def metadata_task(cls):
    def main(p):
        w = Buffers(cls)
        w.tracking = w.reading = True
        first = w.disk
        again = p.maybe("the file is the same")
        r, exc = call(w, "_get_file_metadata")
        if exc is not None:
            p.prove("errors are reported", bool(exc.injected), {"C07"})
            p.prove("a missing file is no error", not issubclass(exc.cls, FileNotFoundError), {"C05", "C07"})
            return "raised"
        p.prove("errors are reported", not w.fault_used, {"C07"})
        p.prove("reading metadata does not write", not w.writes and not [e for e in w.events if e[0] == "fs"], {"C17"})
        if again:
            p.prove("metadata of an unchanged file is the same", w.same(r, w.stat_now()), {"C05", "C07", "C13"})
            return "normal"
        gone = p.maybe("the file is absent later")
        if gone and first.data is None:
            raise Infeasible
        w.disk = w.version(None if gone else w.datum("second"))
        s = w.stat_now()
        p.prove("a change of the file changes its metadata", z3.Not(w.same(r, s)), {"C07"})
        return "normal"

    return main


# ---------------------------------------------------------------------- loading
def load_task(cls):
    def main(p):
        w = Buffers(cls)
        w.before()
        w.interference = not w.inside and not w.absent
        w.reading = True
        w.checkpoint = lambda force: (check_forced(w, force), loaded_post(w), w.check_registered(), w.check_frame())
        r, exc = call(w, "_load_from_buffer")
        w.interference = False
        p.prove("loading does not write files", not w.writes, {"C17", "C05"})
        w.check_locks()
        if exc is not None:
            if w.flushes:
                p.prove("failures of the flush are reported", issubclass(exc.cls, sc_errors.BufferedError), {"C07"})
                return "raised"
            p.prove("content is loaded from the buffer", bool(exc.injected) and (w.fault_used or w.unserializable), BUF, repr(exc))
            w.unchanged(BUF | {"C15"})
            return "raised"
        p.prove("failures are reported", not w.fault_used, {"C05", "C07"})
        A = expected(w)
        if w.shared:
            p.prove("the collection has the buffered content", w.content_term(w.me) == A, BUF | {"C02", "C14"})
        else:
            if not isinstance(r, Sym):
                raise Unsupported("result")
            p.prove("the result is the buffered content", strip(r.term) == A, BUF | {"C02", "C14"})
        p.prove("the size does not exceed the capacity", w.size() <= w.capacity(), {"C15"})
        if not w.flushes:
            loaded_post(w)
            w.check_registered()
            w.check_frame()
        return "normal"

    return main


def check_forced(w, force):
    """A forced flush is only made if the capacity is exceeded."""
    p = P()
    p.prove("only a full buffer is flushed by an operation", w.size() > w.capacity() if force is True else False, {"C05", "C15"})


def expected(w):
    if w.inside:
        return w.A
    if not w.loaded:
        P().prove("content that is not in the buffer is loaded", False, BUF | {"C02"})
        raise Infeasible
    v = w.loaded[-1]
    return v.data if v.data is not None else w.empty


def loaded_post(w):
    p = P()
    e = w.now()
    p.prove("the file is in the buffer", e is not None, BUF)
    if e is None:
        return
    A = expected(w)
    p.prove("the buffer holds the content", w.holds(e) == A, BUF)
    w.check_size(e)
    m = w.field(e, "metadata")
    if w.inside:
        p.prove("loading does not mark the content as modified", w.is_dirty(e) == w.dirty, BUF | {"C17", "C15"})
        p.prove("the metadata is kept", w.same(m, w.metadata), {"C07", "C05"})
        return
    p.prove("loading does not mark the content as modified", z3.Not(w.is_dirty(e)), BUF | {"C17", "C15"})
    now = w.stat_now()
    p.prove("changes of the file after it was loaded are detected", z3.Implies(w.same(m, now), w.disk_term() == A), {"C07"})
    if len(w.versions) == 1:
        p.prove("the metadata is current", w.same(m, now), {"C05", "C07"})


# ----------------------------------------------------------------------- saving
def save_task(cls):
    def main(p):
        w = Buffers(cls)
        w.before()
        w.setup = True
        new = w.datum("new")
        w.me.attrs["_data"].content = w.held_content(new)
        if w.shared and w.inside and w.peer is None:
            # the collection is the buffer: the operation has changed it already
            w.A = new
        w.setup = False
        w.checkpoint = lambda force: (check_forced(w, force), saved_post(w, new), w.check_registered(), w.check_frame())
        r, exc = call(w, "_save_to_buffer")
        p.prove("nothing is written to the file while buffered", not w.writes, {"C05"})
        w.check_locks()
        if exc is not None:
            if w.flushes:
                p.prove("failures of the flush are reported", issubclass(exc.cls, sc_errors.BufferedError), {"C07"})
                return "raised"
            p.prove("content is saved to the buffer", bool(exc.injected) and (w.fault_used or w.unserializable), BUF | {"C12"}, repr(exc))
            w.unchanged(BUF | {"C15"})
            return "raised"
        p.prove("failures are reported", not w.fault_used and not w.unserializable, {"C05"})
        p.prove("the size does not exceed the capacity", w.size() <= w.capacity(), {"C15"})
        p.prove("saving does not change the memory", w.content_term(w.me) == new, BUF)
        if not w.flushes:
            saved_post(w, new)
            w.check_registered()
            w.check_frame()
        return "normal"

    return main


def saved_post(w, new):
    p = P()
    e = w.now()
    p.prove("the file is in the buffer", e is not None, BUF)
    if e is None:
        return
    p.prove("the buffer holds the content", w.holds(e) == new, BUF | {"C12"})
    w.check_size(e)
    m = w.field(e, "metadata")
    was = w.was if w.inside else w.disk
    dirty = w.is_dirty(e)
    if was.data is None:
        p.prove("modified content will be written", dirty, BUF)
    else:
        # content that was changed back need not be written
        p.prove("modified content will be written", z3.Or(dirty, new == was.data), BUF)
    if w.inside:
        p.prove("the metadata is kept", w.same(m, w.metadata), {"C07", "C05"})
    else:
        p.prove("the metadata is current", w.same(m, w.stat_now()), {"C05", "C07"})


# --------------------------------------------------------------------- flushing
def flush_task(cls, buffered, force):
    def main(p):
        w = Buffers(cls, buffered=buffered)
        w.before()
        r, exc = call(w, "_flush", force)
        w.check_locks()
        w.check_frame()
        if w.flushes:
            raise Unsupported("recursive flush")
        if (buffered and not force) or not w.inside:
            w.unchanged(BUF | {"C07"})
            p.prove("nothing fails without changes to write", exc is None, {"C05", "C07"}, repr(exc))
            return "normal"
        e = w.now()
        w.check_size(e)
        p.prove("flushed content does not count", w.size() == w.rest, {"C15"})
        failed = w.fault_used or w.unserializable
        if exc is not None and exc.injected:
            p.prove("failures are reported", failed, {"C07", "C05"})
            p.prove("an entry is removed after an error", e is None, {"C07", "C05"})
            return "raised"
        p.prove("failures are reported", not failed, {"C05", "C07"}, "the failure was not reported")
        if not w.dirty:
            p.prove("unmodified content is not written", not w.writes, {"C17", "C07", "C05"})
            p.prove("unmodified content is not a conflict", exc is None, {"C07", "C05"}, repr(exc))
        elif w.changed:
            p.prove("files changed by others are not overwritten", not w.writes, {"C07"})
            ok = exc is not None and issubclass(exc.cls, sc_errors.MetadataError)
            p.prove("a conflict is reported", ok, {"C07"}, repr(exc))
            if ok:
                p.prove("a conflict names the file", is_file(w, exc.attrs.get("filename")), {"C07"})
            p.prove("an entry is removed after an error", e is None, {"C07", "C05"})
            return "raised"
        else:
            p.prove("there is no conflict if the file was not changed", exc is None, {"C05", "C07"}, repr(exc))
            p.prove("the file has the buffered content", w.disk_term() == w.A, BUF | {"C07", "C15"})
        if exc is not None:
            return "raised"
        if e is not None:
            p.prove("only a forced flush keeps entries", force and w.shared, {"C05", "C07", "C02"})
            p.prove("the buffer holds the content", w.holds(e) == w.A, BUF)
            p.prove("flushed content is not modified", z3.Not(w.is_dirty(e)), BUF | {"C15"})
            m = w.field(e, "metadata")
            if w.changed:
                p.prove("changes by others are detected later", z3.Not(w.same(m, w.stat_now())), {"C07"})
            else:
                p.prove("the metadata is current", w.same(m, w.stat_now()), {"C07", "C05", "C15"})
        return "normal"

    return main


def is_file(w, v):
    return isinstance(v, Sym) and v.term.eq(w.file)


# --------------------------------------------------------------- the whole buffer
class Pool(MapC):
    """Registered collections that are still to be visited: any number."""

    def __init__(self, w, n):
        super().__init__()
        self.w, self.n = w, z3.Int(f"pool{n}")
        P().assume(self.n >= 0)

    def _has(self, k):
        return z3.And(self.n > 0, z3.Or(k == ident(self.w.me), app("inpool", V, BOOLS)(k)))

    def _get(self, k):
        if P().entails(k == ident(self.w.me)):
            return self.w.me
        return Opaque("collection")

    def length(self):
        return self.n


class FlushAll(Buffers):
    """Flushing of all registered collections; _flush is used by contract."""

    def __init__(self, cls, buffered, roles):
        super().__init__(cls, buffered=buffered)
        self.contracts.pop("_flush_buffer")
        self.contracts["_flush"] = self.c_flush
        self.before(inside=False)
        self.registered.content = Pool(self, 0)
        self.flushed, self.raised, self.roles = [], None, roles
        self.loops = 0
        self.events.clear()

    def last_key(self, content):
        return ident(self.me)

    def c_flush(self, fn, self_, a, k):
        p = P()
        if self_ is not self.me:
            raise Unsupported("flush of another collection")
        force = a[0] if a else k.get("force", False)
        self.event("buf", "w")
        self.flushed.append(force)
        if p.maybe("the flush fails"):
            cls = sc_errors.MetadataError if p.maybe("conflict") else OSError
            if cls is OSError and p.maybe("cannot be serialized"):
                cls = TypeError
            self.raised = Exc(cls, (), "flush fails")
            raise PyRaise(self.raised)
        return None

    def tables(self, f):
        return {n: v for n, v in f.locals.items() if isinstance(v, DictObj)}

    def while_hook(self, ip, s, f):
        """Invariant: the accumulators have what the visited collections left;
        one iteration for an arbitrary collection."""
        p = P()
        self.loops += 1
        if self.loops > 1 or any(isinstance(v, ListObj) for v in f.locals.values()):
            raise Unsupported("another loop")
        for n, d in self.tables(f).items():
            p.prove("nothing is kept or reported before the first collection", d.content.concrete_keys() == [], {"C07", "C05"})
        for n in assigned_names(s.body):
            f.locals[n] = POISON
        start = {}
        for n, d in self.tables(f).items():
            ln = z3.Int(f"len:{n}")
            p.assume(ln >= 0)
            has = app(f"in:{n}", V, BOOLS)
            kept = {}
            d.content = start[n] = FunMap(has, lambda k, kept=kept: kept.setdefault(k.get_id(), (k, Opaque("earlier")))[1], length=lambda ln=ln: ln)
        self.start = start
        self.registered.content = Pool(self, 1)
        pool = self.registered.content
        if not ip.truth(ip.eval(s.test, f)):
            ip.block(s.orelse, f)
            self.ended(pool)
            return True
        try:
            ip.block(s.body, f)
        except BreakSig:
            self.ended(pool)
            return True
        except ContinueSig:
            pass
        except PyRaise as e:
            p.prove("the other collections are flushed after an error", False, {"C07", "C05"}, repr(e.exc))
            raise Infeasible from None
        self.visited(f, pool)
        raise Infeasible

    def ended(self, pool):
        P().prove("every registered collection is visited", pool.length() == 0, BUF | {"C07", "C13", "C15"})

    def visited(self, f, pool):
        p = P()
        tables, me, file = self.tables(f), ident(self.me), self.file
        c = self.registered.content
        p.prove("a collection is visited once", z3.Not(zb(c.has(me))) if not isinstance(c, DelMap) else c.base is pool and c.k.eq(me), BUF | {"C10"})
        kept = [n for n, d in tables.items() if p.entails(zb(d.content.has(me))) and d.content.get(me) is self.me]
        skip = self.is_buffered and not self.force
        if skip:
            p.prove("collections that are still buffered are kept", len(kept) == 1, BUF | {"C07"})
            p.prove("collections that are still buffered are not flushed", not [x for x in self.flushed if x is not False], BUF)
        else:
            p.prove("every other collection is flushed", self.flushed == [self.force], BUF | {"C07", "C13", "C15"})
        if self.force and self.shared:
            p.prove("retained collections are kept", len(kept) == 1, BUF | {"C15"})
        if kept:
            self.role("kept", kept[0])
        issues = [n for n in tables if n not in kept and self.changed_at(tables[n], n, file)]
        if self.raised is not None:
            ok = len(issues) == 1 and tables[issues[0]].content.get(file) is self.raised
            p.prove("errors are reported for the file", ok, {"C07"})
            if issues:
                self.role("issues", issues[0])
        else:
            p.prove("only errors are reported", not issues, {"C07", "C05"})
        k = z3.Const("kappa", V)
        p.know(k)
        for n, d in tables.items():
            own = me if n in kept else file if n in issues else None
            if own is not None and p.entails(k != own) is False:
                if p.fork(k == own, "same"):
                    continue
            same = zb(d.content.has(k)) == zb(self.start[n].has(k))
            p.prove("what was kept or reported earlier stays", same, {"C07", "C05", "C06"})

    def changed_at(self, d, n, k):
        return d.content is not self.start[n]

    def role(self, what, name):
        """The variable that accumulates; the same on every path."""
        old = self.roles.setdefault(what, name)
        P().prove("errors and kept collections are accumulated in one place", old == name, {"C07", "C05"})


def flush_all_task(cls, force):
    roles = {}

    def main(p):
        buffered = p.maybe("still buffered")
        w = FlushAll(cls, buffered, roles)
        w.force = force
        fn, owner = implementation(cls, "_flush_buffer")
        try:
            w.ip.run_function(fn, [cls], {"force": force} if force else {}, owner)
            exc = None
        except PyRaise as e:
            exc = e.exc
        p.prove("all locks are released", not any(w.held.values()), {"C10", "C13"})
        w.check_sections()
        if not w.loops:
            raise Unsupported("no loop")
        if exc is None:
            name = roles.get("issues")
            if name:
                p.prove("errors are raised", z3.Int(f"len:{name}") == 0, {"C07"})
        else:
            p.prove("a failure names the files", issubclass(exc.cls, sc_errors.BufferedError), {"C07"}, repr(exc))
            files = exc.attrs.get("files")
            names = [n for n, c in w.start.items() if isinstance(files, DictObj) and files.content is c]
            p.prove("exactly the files with errors are named", len(names) == 1, {"C07"})
            if names:
                w.role("issues", names[0])
                p.prove("an error is only raised if there is one", z3.Int(f"len:{names[0]}") > 0, {"C07", "C05"})
        # the registered collections are those that were kept
        k = z3.Const("kappa", V)
        p.know(k)
        name = roles.get("kept")
        if name:
            got = zb(w.registered.content.has(k))
            want = zb(w.start[name].has(k))
            p.prove("exactly the kept collections are registered", got == want, BUF | {"C07"})
        return "raised" if exc is not None else "normal"

    return main


# ---------------------------------------------------------------------- capacity
class Capacity(Buffers):
    """The size and capacity of the whole buffer; flushing by contract."""

    def __init__(self, cls, **kw):
        super().__init__(cls, **kw)
        p = P()
        self.before(inside=False)
        self.total = z3.Int("total")
        p.assume(z3.And(self.total >= 0, self.total <= self.cap))
        self.overlay[(cls, "_CURRENT_BUFFER_SIZE")] = SInt(self.total)
        self.contracts["_flush_buffer"] = self.c_flush_all
        self.calls = []
        self.events.clear()

    def c_flush_all(self, fn, self_, a, k):
        p = P()
        force = a[0] if a else k.get("force", False)
        self.calls.append((self_, force, self.size(), self.capacity(), self.counts()))
        self.event("buf", "w")
        if force or not self.counts_positive():
            self.overlay[(self.cls, "_CURRENT_BUFFER_SIZE")] = 0
        if p.maybe("a file was changed by others"):
            e = Exc(sc_errors.BufferedError, (), "a file was changed by others")
            e.attrs["files"] = Opaque("files")
            raise PyRaise(e)

    def counts(self):
        c = self.ctx_count()
        return c.term if isinstance(c, SInt) else z3.IntVal(c)

    def counts_positive(self):
        return P().fork(self.counts() > 0, "context is active")

    def ctx_count(self):
        return self.context().attrs["_count"]

    def context(self):
        c = self.ip.cls_lookup(self.cls, "_buffer_context")[0]
        if not isinstance(c, Obj) or "_count" not in c.attrs:
            raise Unsupported("_buffer_context")
        return c


def capacity_task(cls):
    def main(p):
        w = Capacity(cls)
        new = SInt(z3.Int("new_capacity"))
        p.assume(new.term >= 0)
        try:
            w.ip.call(w.ip.getattr(cls, "set_buffer_capacity"), [new], {})
            exc = None
        except PyRaise as e:
            exc = e.exc
        p.prove("the capacity is set", w.capacity() == new.term, {"C15", "C07"})
        p.prove("the size does not exceed the capacity", w.size() <= w.capacity(), {"C15"})
        for c, force, size, cap, _ in w.calls:
            p.prove("only a full buffer is flushed", size > new.term if force is True else False, {"C05", "C15"})
            p.prove("the buffer of the own class is flushed", c is cls, {"C15"})
        if exc is not None:
            p.prove("setting the capacity succeeds unless a flush fails", bool(w.calls) and issubclass(exc.cls, sc_errors.BufferedError), {"C15", "C07"}, repr(exc))
        p.prove("all locks are released", not any(w.held.values()), {"C10", "C13"})
        w.check_sections()
        return "raised" if exc is not None else "normal"

    return main


def getters_task(cls):
    def main(p):
        w = Capacity(cls)
        c = w.ip.call(w.ip.getattr(cls, "get_buffer_capacity"), [], {})
        s = w.ip.call(w.ip.getattr(cls, "get_current_buffer_size"), [], {})
        b = w.ip.call(w.ip.getattr(cls, "backend_is_buffered"), [], {})
        p.prove("the capacity is reported", isinstance(c, SInt) and c.term.eq(w.cap), {"C15"})
        p.prove("the size is reported", isinstance(s, SInt) and s.term.eq(w.total), {"C15"})
        p.prove("whether the backend is buffered is reported", zb(w.ip.truth(b)) == (w.counts() > 0), {"C05", "C15"})
        return "normal"

    return main


# ---------------------------------------------------------------------- contexts
class Contexts(Capacity):
    def __init__(self, cls, depth):
        super().__init__(cls, buffered=True)
        p = P()
        self.n = z3.Int("backend_count")
        p.assume(self.n >= depth)
        ctx = self.context()
        stack = ctx.attrs.get("_original_buffer_capacitys")
        if not isinstance(stack, ListObj):
            raise Unsupported("capacities")
        # the capacity before each of the active contexts, None if it was kept
        self.top = SInt(z3.Int("previous_capacity")) if p.maybe("the innermost context set a capacity") else None
        if self.top is not None:
            p.assume(self.top.term >= 0)
        self.base = FunSeq(lambda: self.n - depth, lambda i: SInt(app("earlier_capacity", INTS, INTS)(i)))
        stack.content = InsertSeq(self.base, self.n - depth, self.top) if depth else FunSeq(lambda: self.n, lambda i: SInt(app("earlier_capacity", INTS, INTS)(i)))
        self.stack, self.stack0 = stack, stack.content
        p.prove("no capacity is pending", ctx.attrs.get("_buffer_capacity") is None, {"C15"})


def enter_task(cls):
    def main(p):
        w = Contexts(cls, 0)
        new = SInt(z3.Int("new_capacity")) if p.maybe("a capacity is given") else None
        if new is not None:
            p.assume(new.term >= 0)
        cm = w.ip.call(w.ip.getattr(cls, "buffer_backend"), [new] if new is not None else [], {})
        p.prove("the context of the class is returned", cm is w.context(), BUF)
        before = w.capacity()
        p.prove("the capacity only changes in the context", before == w.cap, {"C15", "C07"})
        try:
            w.ip.call(w.ip.special(cm, "__enter__"), [], {})
            exc = None
        except PyRaise as e:
            exc = e.exc
        pending = w.context().attrs.get("_buffer_capacity")
        p.prove("a capacity is used once", pending is None, {"C15"})
        p.prove("the size does not exceed the capacity", w.size() <= w.capacity(), {"C15"})
        if exc is not None:
            p.prove("entering succeeds unless a flush fails", bool(w.calls) and issubclass(exc.cls, sc_errors.BufferedError), {"C05", "C15"}, repr(exc))
            p.prove("the capacity is restored if entering fails", w.capacity() == w.cap, {"C15", "C07"})
            p.prove("the context is not active if entering fails", w.counts() == w.n, {"C05", "C07"})
            p.prove("no capacity is left over if entering fails", w.stack.content is w.stack0, {"C15", "C07"})
            return "raised"
        p.prove("the context is active", w.counts() == w.n + 1, {"C05"})
        p.prove("the capacity is set", w.capacity() == (new.term if new is not None else w.cap), {"C15"})
        c = w.stack.content
        p.prove("a context remembers one capacity", c.length() == w.n + 1, {"C15"})
        top = c.at(w.n)
        if new is None:
            p.prove("the previous capacity is remembered", top is None or isinstance(top, SInt) and top.term == w.cap, {"C15", "C07"})
        else:
            p.prove("the previous capacity is remembered", isinstance(top, SInt) and top.term == w.cap, {"C15", "C07"})
        for x in w.calls:
            p.prove("only a full buffer is flushed", x[1] is True and new is not None and x[2] > x[3], {"C05", "C15"})
        return "normal"

    return main


def exit_task(cls):
    def main(p):
        w = Contexts(cls, 1)
        failing = p.maybe("the block raised")
        args = [ValueError, Exc(ValueError), Opaque("traceback")] if failing else [None, None, None]
        ctx = w.context()
        try:
            r, exc = w.ip.call(w.ip.special(ctx, "__exit__"), args, {}), None
        except PyRaise as e:
            r, exc = None, e.exc
        last = p.fork(w.n == 1, "the outermost context")
        p.prove("the context is left", w.counts() == w.n - 1, {"C05", "C07", "C10"})
        plain = [c for c in w.calls if c[1] is False]
        forced = [c for c in w.calls if c[1] is not False]
        if last:
            p.prove("leaving the outermost context flushes the class", len(plain) == 1 and plain[0][0] is cls, BUF | {"C07", "C15"})
            if plain:
                p.prove("the class is flushed when it is not buffered any more", plain[0][4] == 0, BUF | {"C07"})
        else:
            p.prove("nothing is flushed in an enclosing context", not plain, {"C05"})
        want = w.top.term if w.top is not None else w.cap
        p.prove("the capacity is restored", w.capacity() == want, {"C15", "C07"})
        p.prove("the size does not exceed the capacity", w.size() <= w.capacity(), {"C15"})
        for x in forced:
            p.prove("only a full buffer is flushed", x[2] > want, {"C05", "C15"})
        p.prove("the remembered capacity is removed", w.stack.content.length() == w.n - 1, {"C15", "C07"})
        if exc is None:
            p.prove("exceptions of the block are not suppressed", not w.ip.truth(r), {"C05"})
            return "normal"
        p.prove("errors of the flush are raised", bool(w.calls) and issubclass(exc.cls, sc_errors.BufferedError), {"C07"}, repr(exc))
        return "raised"

    return main


def object_context_task(cls):
    """obj.buffered: counting and flushing of one collection."""

    def main(p):
        leaving = p.maybe("leaving")
        w = Buffers(cls, buffered=True)
        w.before(inside=False)
        calls = []

        def flush(fn, self_, a, k):
            calls.append((self_, a, k, root.attrs["buffered"].attrs["_count"]))
            if p.maybe("the flush fails"):
                raise PyRaise(Exc(sc_errors.MetadataError, (), "conflict"))

        w.contracts["_flush"] = flush
        root = w.root
        a = z3.Int("buffered_count")
        p.assume(a >= (1 if leaving else 0))
        ctx = w.ip.getattr(w.me, "buffered")
        if not isinstance(ctx, Obj):
            raise Unsupported("buffered")
        cm = w.ip.call(ctx, [], {})
        p.prove("the context can be called", cm is ctx, {"C05"})
        try:
            if leaving:
                w.ip.call(w.ip.special(ctx, "__exit__"), [None, None, None], {})
            else:
                w.ip.call(w.ip.special(ctx, "__enter__"), [], {})
            exc = None
        except PyRaise as e:
            exc = e.exc
        count = ctx.attrs["_count"]
        count = count.term if isinstance(count, SInt) else count
        p.prove("entries are counted", count == a + (-1 if leaving else 1), {"C05", "C07", "C10"})
        if leaving and p.fork(a == 1, "outermost"):
            ok = len(calls) == 1 and calls[0][0] is root and not calls[0][1] and not calls[0][2]
            p.prove("leaving the outermost context flushes the collection", ok, BUF | {"C07"})
            if calls:
                n = calls[0][3]
                p.prove("the collection is flushed when it is not buffered any more", (n.term if isinstance(n, SInt) else n) == 0, BUF | {"C07"})
        else:
            p.prove("nothing is flushed in an enclosing context", not calls, {"C05"})
        if exc is not None:
            p.prove("errors of the flush are raised", bool(calls), {"C05", "C07"}, repr(exc))
            return "raised"
        nested = w.ip.instantiate(cls, [], {"parent": w.me})
        p.prove("nested collections share the context", w.ip.getattr(nested, "buffered") is ctx, BUF | {"C18"})
        b = w.ip.truth(w.ip.getattr(w.me, "_is_buffered"))
        now = ctx.attrs["_count"]
        now = now.term if isinstance(now, SInt) else now
        p.prove("a collection is buffered in either context", z3.BoolVal(b) == z3.Or(now > 0, z3.Int("backend_count") > 0), BUF)
        return "normal"

    return main


# -------------------------------------------------------------- state of classes
def separate_task(cls):
    """Facts about the classes as they are after the library was imported: the
    buffer of a class is not used by another one, which the frame of the
    functions above depends on."""

    def main(p):
        others = [c for c in optask.classes().values() if c is not cls]
        for name in ("_buffer", "_buffered_collections", "_buffer_context"):
            mine = getattr(cls, name)
            p.prove(f"the {name.strip('_').replace('_', ' ')} of a class is its own", all(getattr(c, name, None) is not mine for c in others), BUF | {"C07", "C13", "C15"})
        p.prove("the size of the buffer of a class is its own", "_CURRENT_BUFFER_SIZE" in cls.__dict__, {"C15", "C13"})
        p.prove("buffers are empty at first", not cls._buffer and cls._CURRENT_BUFFER_SIZE == 0 and not cls._buffered_collections, {"C15", "C05"})
        return "normal"

    return main


def tasks():
    out = {}
    for n, c in optask.classes().items():
        if not hasattr(c, "buffer_backend"):
            continue
        for what, task in (
            ("_load_from_buffer", load_task), ("_save_to_buffer", save_task),
            ("set_buffer_capacity", capacity_task), ("get_buffer_capacity", getters_task),
            ("_get_file_metadata", metadata_task), ("buffer_backend.enter", enter_task), ("buffer_backend.exit", exit_task),
            ("buffered", object_context_task), ("__init_subclass__", separate_task),
        ):  # fmt: skip
            out[f"{n}.{what}"] = (task, (n,))
        for force in (False, True):
            for b in (False, True):
                out[f"{n}._flush{'(buffered)' if b else ''}{'(force)' if force else ''}"] = (flush_task, (n, b, force))
            out[f"{n}._flush_buffer{'(force)' if force else ''}"] = (flush_all_task, (n, force))
    return out
