"""Public operations against the contracts of the internal functions.

For an operation on a root or nested collection, the resource holds arbitrary
valid data R, the memory of the collection holds arbitrary stale data M, and the
arguments are arbitrary.  The body of the public method and of everything it
calls is executed symbolically except for the functions with contracts."""
import collections.abc as abc

import z3

import natives
from core import *  # noqa: F403
from core import ABSENT, BOOLS, INTS
from interp import MISSING, UnknownC
from natives import HASHABLE, pyeq, strip
from world import *  # noqa: F403
from world import MODELLED, MUTABLE, SyncedCollection, changing_names, World, Predicate, sc_errors, sc_mod, valid
import synced_collections.backends.collection_json as cj
from synced_collections.buffers.memory_buffered_collection import SharedMemoryFileBufferedCollection
from synced_collections.buffers.buffered_collection import BufferedCollection


def family_of(cls):
    names = [getattr(v, "__name__", "") for v in cls._all_validators]
    if "Attr" in cls.__name__:
        return "attr"
    if "Zarr" in cls.__name__:
        return "strkey"
    return "json"


class Saved:
    """What a save stored: the content of the receiver and the surroundings."""

    def __init__(self, content, ctx, kind_):
        self.content, self.ctx, self.kind = content, ctx, kind_


class Upper(World):
    def __init__(self, cls, nested=False, buffered=False, faults=True, receiver=True):
        super().__init__()
        self.cls, self.nested, self.is_buffered, self.faults = cls, nested, buffered, faults
        self.family = family_of(cls)
        self.ismap = issubclass(cls, abc.Mapping)
        self.saves, self.loads = [], 0
        self.contracts = {
            "get_type": self.c_get_type,
            "_detach": self.c_detach,
            "json_format_validator": lambda f, s, a, k: self.c_validator(JSONOK, a, k),
            "require_string_key": lambda f, s, a, k: self.c_validator(STRKEY, a, k),
            "no_dot_in_key": lambda f, s, a, k: self.c_validator(NODOT, a, k),
            "json_attr_dict_validator": self.c_attr_validator,
            "_convert_numpy": self.c_convert,
            "_from_base": self.c_from_base,
            "_to_base": self.c_to_base,
            "_update": self.c_update,
            "_load_from_resource": self.c_load,
            "_save_to_resource": self.c_save,
            "_load_from_buffer": self.c_load_buffer,
            "_save_to_buffer": self.c_save_buffer,
        }
        p = P()
        self.absent = False
        self.R = z3.Const("R", V)
        self.res_kind = None
        if receiver:
            self.setup = True
            self.make_receiver()
            self.setup = False

    # ------------------------------------------------------------- pre-state
    def resource_arguments(self, root_cls):
        """Arbitrary constructor arguments that name the resource."""
        p, kwargs = P(), {}
        if issubclass(root_cls, cj.JSONCollection):
            fn = Sym(z3.Const("filename", V))
            p.assume(kind(fn.term) == STR)
            p.assume(HASHABLE(fn.term))
            kwargs = {"filename": fn, "write_concern": SBool(z3.Bool("write_concern"))}
        else:
            names = {"Redis": ("client", "key"), "Mongo": ("collection", "uid"), "Zarr": ("group", "name")}
            for n, ks in names.items():
                if root_cls.__name__.startswith(n):
                    kwargs = {k: Opaque(k) for k in ks}
            if "uid" in kwargs:
                kwargs["uid"] = DictObj(PutMap(EmptyMap(), p.vstr("_id"), Opaque("uid")))
            if "group" in kwargs:
                kwargs["codec"] = Opaque("codec")
        return kwargs

    def make_receiver(self):
        p, ip = P(), self.ip
        cls, root_cls = self.cls, self.cls
        if self.nested:
            root_cls = self.dict_class()
        kwargs = self.resource_arguments(root_cls)
        self.root = ip.instantiate(root_cls, [], kwargs)
        if self.nested:
            self.me = ip.instantiate(cls, [], {"parent": self.root})
        else:
            self.me = self.root
        if "_data" not in self.me.attrs:
            raise Unsupported("no _data")
        # the counters of enclosing buffered contexts
        self.count = z3.Int("buffered_count"), z3.Int("backend_count")
        if issubclass(root_cls, BufferedCollection):
            a, b = self.count
            p.assume(z3.And(a >= 0, b >= 0))
            p.assume(a + b > 0 if self.is_buffered else a + b == 0)
            self.root.attrs["buffered"].attrs["_count"] = SInt(a)
            ctx, owner = ip.cls_lookup(root_cls, "_buffer_context")
            ctx.attrs["_count"] = SInt(b)
            if self.nested and self.me.cls is not root_cls:
                ctx2, owner = ip.cls_lookup(self.me.cls, "_buffer_context")
                ctx2.attrs["_count"] = SInt(z3.Int("other_count"))
                p.assume(z3.Int("other_count") >= 0)
        # the memory
        self.M = z3.Const("M", V)
        K = MAP if self.ismap else SEQ
        p.know(self.M)
        p.assume(kind(self.M) == K)
        p.assume(NORM(self.M) == self.M)
        R = self.R
        p.know(R)
        p.assume(z3.And(NORM(R) == R, DETACHED(R), valid(R, self.family), z3.Not(ISSC(R))))
        self.ctx = "stale"
        if self.nested:
            p.assume(kind(R) == MAP)
            self.S = SUB(R)
        else:
            self.S = R
        p.know(self.S)
        p.assume(z3.And(kind(self.S) == K, NORM(self.S) == self.S, valid(self.S, self.family), DETACHED(self.S)))
        p.assume(valid(self.M, self.family))
        self.stale = CellMap(self.M) if self.ismap else CellSeq(self.M)
        self.fresh = CellMap(self.S) if self.ismap else CellSeq(self.S)
        if not self.nested and p.maybe("the resource is absent"):
            self.absent = True
            self.stale = self.fresh = EmptyMap() if self.ismap else LitSeq([])
        self.forget()
        self.data().content = self.stale
        self.data().watch = lambda rw: self.event("mem", rw)
        self.root0 = {id(o): (o, n, v) for o in self.roots() for n, v in o.attrs.items() if isinstance(v, int)}
        self.counters = [(o, n, v) for o in self.roots() for n, v in o.attrs.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        self.events.clear()
        self.saves.clear()

    def forget(self):
        """Attributes outside the model keep their initial value only if nothing
        but constructors sets them; earlier calls may have changed the others."""
        changed = changing_names()
        for o in self.roots():
            for n, v in list(o.attrs.items()):
                if n not in MODELLED and (n in changed or isinstance(v, MUTABLE)):
                    del o.attrs[n]
                    o.forgotten.add(n)

    def roots(self):
        seen = [self.me] + ([self.root] if self.nested else [])
        for o in list(seen):
            for v in o.attrs.values():
                if isinstance(v, Obj) and v not in seen:
                    seen.append(v)
        return seen

    def dict_class(self):
        for c in SyncedCollection.registry[self.cls._backend]:
            if issubclass(c, abc.Mapping):
                return c
        raise Unsupported("no dict class")

    def data(self):
        return self.me.attrs["_data"]

    def attr_write(self, ip, obj, name, value):
        if obj is getattr(self, "me", None) and name == "_data" and isinstance(value, Heap):
            self.event("mem", "w")
            value.watch = lambda rw: self.event("mem", rw)

    def same_family(self, T):
        return T._backend == self.cls._backend

    # -------------------------------------------------------------- contracts
    def c_get_type(self, fn, self_, a, k):
        """The first identifier that holds for the value names its type."""
        if not isinstance(self_, Obj) or self_.label != "shadow":
            raise Unsupported("resolver")
        ids = self_.attrs.get("abstract_type_identifiers")
        obj = a[0] if a else k["obj"]
        if not isinstance(ids, dict):
            raise Unsupported("resolver identifiers")
        for name, f in ids.items():
            if self.ip.truth(self.ip.call(f, [obj], {})):
                return name
        return None

    def c_detach(self, fn, self_, a, k):
        """A copy without synced collections."""
        return self.det(a[0] if a else k["data"])

    def det(self, v):
        if isinstance(v, Sym):
            self.foreign_read(v.term)
            return Sym(DET(v.term), "fresh")
        if isinstance(v, Cell):
            return self.detached(v.view)
        if isinstance(v, DictObj):
            c = v.whole()
            ks = c.concrete_keys()
            if ks is not None:
                m = EmptyMap()
                for key in ks:
                    m = PutMap(m, key, self.det(c.get(key)))
                return DictObj(m)
            if isinstance(c, DataMap):
                return self.det(Sym(c.t))
            if isinstance(c, PutMap):
                return DictObj(self.det_put(c))
            return DictObj(FunMap(c.has, lambda key: self.det(c.get(key)), length=c.length))
        if isinstance(v, ListObj):
            c = v.whole()
            items = c.concrete()
            if items is not None:
                return ListObj(LitSeq([self.det(x) for x in items]))
            if isinstance(c, DataSeq):
                return self.det(Sym(c.t))
            return ListObj(FunSeq(c.length, lambda i: self.det(c.at(i))))
        if isinstance(v, tuple):
            return ListObj(LitSeq([self.det(x) for x in v]))
        if isinstance(v, Obj) and self.is_synced_class(v.cls):
            raise Unsupported("detach a collection")
        return v

    def det_put(self, c):
        if isinstance(c, PutMap):
            return PutMap(self.det_put(c.base), c.k, self.det(c.v))
        if isinstance(c, DataMap):
            d = self.det(Sym(c.t))
            return DataMap(d.term, "fresh")
        if isinstance(c, EmptyMap):
            return c
        return FunMap(c.has, lambda key: self.det(c.get(key)), length=c.length)

    def c_validator(self, pred, a, k):
        v = a[0] if a else k["data"]
        if isinstance(v, Sym):
            self.foreign_read(v.term)
        if Predicate(pred).decide(v):
            return None
        cls = sc_errors.InvalidKeyError if P().maybe("value error") else sc_errors.KeyTypeError
        raise PyRaise(Exc(cls, ("invalid data",)))

    def c_attr_validator(self, fn, self_, a, k):
        self.c_validator(JSONOK, a, k)
        self.c_validator(NODOT, a, k)

    def c_convert(self, fn, self_, a, k):
        v = a[0] if a else k["data"]
        if isinstance(v, Sym):
            P().know(v.term)
            if P().fork(z3.Or(kind(v.term) == NDARR, NPSCALAR(v.term)), "numpy data"):
                return self.ip.n.conv(v)
        return v

    def c_from_base(self, fn, self_, a, k):
        """A nested collection or scalar with the content of the data."""
        k = dict(k)
        v = a[0] if a else k.pop("data")
        parent = k.get("parent", a[1] if len(a) > 1 else None)
        p = P()
        p.prove("nested collections belong to the collection they are stored in", parent is self.me, {"C01", "C04", "C18"})
        return self.new_cell(v)

    def new_cell(self, v):
        p = P()
        if isinstance(v, Cell):
            if p.fork(isnode(v.view), "nested collection"):
                p.prove("data is detached before it is read under a lock", False, {"C10"})
                raise Unsupported("_from_base of a node")
            return v
        if isinstance(v, Sym):
            self.foreign_read(v.term)
            c = Cell(NORM(v.term), z3.Const(p.name("new"), ID), True)
            if not p.fork(valid(v.term, self.family), "valid data"):
                c.invalid = True
            return c
        if v is None or isinstance(v, (str, bool, int)):
            return Cell(term(v), z3.Const(p.name("new"), ID), True)
        if isinstance(v, (DictObj, ListObj)):
            t = self.ip.n.as_term(v)
            if t is None:
                t = self.reify(v)
            return self.new_cell(Sym(t))
        raise Unsupported("_from_base")

    def reify(self, v):
        """A term for a container that was built by the code (empty only)."""
        p = P()
        t = p.fresh("built")
        p.know(t)
        c = v.whole()
        if isinstance(v, DictObj) and c.concrete_keys() == []:
            p.assume(z3.And(kind(t) == MAP, MLEN(t) == 0, JSONOK(t), NODOT(t), DETACHED(t)))
            return t
        if isinstance(v, ListObj) and c.concrete() == []:
            p.assume(z3.And(kind(t) == SEQ, LEN(t) == 0, JSONOK(t), NODOT(t), DETACHED(t)))
            return t
        raise Unsupported("term of computed data")

    def c_to_base(self, fn, self_, a, k):
        """An equivalent plain container."""
        if self_ is not self.me:
            raise Unsupported("_to_base of another collection")
        c = self.data().whole()
        if isinstance(c, (CellMap, CellSeq)):
            return self.detached(c.t)
        if self.ismap:
            if c.concrete_keys() == []:
                return DictObj()
            return DictObj(FunMap(c.has, lambda key: self.detached(term(c.get(key))), c.concrete_keys, c.length))
        items = c.concrete()
        if items is not None:
            return ListObj(LitSeq([self.detached(term(x)) for x in items]))
        return ListObj(FunSeq(c.length, lambda i: self.detached(term(c.at(i)))))

    def c_update(self, fn, self_, a, k):
        """The content becomes that of the data; nested nodes of the same kind
        keep their identity; None changes nothing; data of another kind is
        rejected with ValueError before anything is changed."""
        k = dict(k)
        data = a[0] if a else k.pop("data", None)
        if data is None:
            return None
        p = P()
        if isinstance(data, Sym) and data.owner == "resource":
            if self_ is not self.root:
                raise Unsupported("a nested collection is updated from the resource")
            if self.nested:
                self.ctx = "current"
                self.event("mem", "w")
                self.data().replace(self.fresh)
            else:
                self.data().replace(self.fresh)
            return None
        if self_ is not self.me:
            if self_ is self.root:
                self.ctx = "overwritten"
                return None
            raise Unsupported("_update of another collection")
        if isinstance(data, Sym):
            p.know(data.term)
            if p.fork(kind(data.term) == NONE, "None"):
                return None
            K = MAP if self.ismap else SEQ
            if not p.fork(kind(NORM(data.term)) == K, "same kind"):
                raise PyRaise(Exc(ValueError, ("Unsupported type",)))
            self.foreign_read(data.term)
            c = DataMap(data.term) if self.ismap else DataSeq(data.term)
            if not p.fork(valid(data.term, self.family), "valid data"):
                self.data().see("w")
                self.tainted = True
                self.data().content = UnknownC()
                if self.ip.truth(a[1] if len(a) > 1 else k.get("_validate", False)):
                    return None
                raise PyRaise(Exc(ValueError if p.maybe("value error") else TypeError, ("invalid",)))
        elif isinstance(data, (DictObj, ListObj)):
            if isinstance(data, DictObj) != self.ismap:
                raise PyRaise(Exc(ValueError, ("Unsupported type",)))
            c = data.whole()
            self.foreign_elements(c)
        else:
            raise PyRaise(Exc(ValueError, ("Unsupported type",)))
        old = self.data().whole()
        if self.ismap:

            def get(key):
                v = c.get(key)
                e = old.get(key) if p.fork(zb(old.has(key)), "present before") else None
                return self.merged(v, e)

            keys = c.concrete_keys
            new = FunMap(c.has, get, keys, c.length)
        else:

            def at(i):
                e = old.at(i) if p.fork(i < old.length(), "present before") else None
                return self.merged(c.at(i), e)

            new = FunSeq(c.length, at)
        self.data().replace(new)
        return None

    def foreign_elements(self, c):
        """An arbitrary element of the data is read."""
        p = P()
        if self.lazy or not any(n for l, n in self.held.items() if self.rank(l) < 2):
            return
        if isinstance(c, MapC):
            k = z3.Const(p.name("anykey"), V)
            p.know(k)
            there = zb(c.has(k))
        else:
            k = z3.Int(p.name("anyindex"))
            there = z3.And(k >= 0, k < c.length())
        if p.fork(there, "element"):
            v = c.get(k) if isinstance(c, MapC) else c.at(k)
            if isinstance(v, Sym):
                self.foreign_read(v.term)

    def merged(self, v, e):
        p = P()
        if isinstance(v, Cell):
            if e is not None and e.view.eq(v.view):
                return v
            return Cell(v.view, e.ident if e is not None else z3.Const(p.name("new"), ID))
        if isinstance(v, Sym):
            t = NORM(v.term)
        else:
            t = term(v) if not isinstance(v, (DictObj, ListObj)) else NORM(self.reify(v))
        p.know(t)
        c = Cell(t, z3.Const(p.name("kept"), ID))
        if isinstance(v, Sym) and not p.fork(valid(v.term, self.family), "valid data"):
            c.invalid = True
        return c

    def inject(self, where):
        p = P()
        if self.faults and not self.fault_used and p.maybe(f"{where} fails"):
            self.fault_used = True
            raise PyRaise(Exc(OSError, (), f"{where} fails"))

    def c_load(self, fn, self_, a, k):
        """The content of the resource, or None if there is none."""
        if self_ is not self.root:
            P().prove("only the root accesses the resource", False, {"C04"})
            raise Infeasible
        self.event("res", "r")
        if self.is_buffered:
            raise Unsupported("unbuffered load in a buffered context")
        self.inject("load")
        return self.loaded()

    def loaded(self):
        if self.absent:
            return None
        return Sym(self.R, "resource")

    def c_save(self, fn, self_, a, k):
        """The resource now holds the content of the collection; a failure
        leaves it unchanged."""
        P().prove("nothing is written to the resource while buffered", not self.is_buffered, {"C05"})
        self.store(self_, "save")

    def store(self, self_, where):
        if self_ is not self.root:
            P().prove("only the root accesses the resource", False, {"C04"})
            raise Infeasible
        self.event("res", "w")
        self.inject(where)
        self.saves.append(Saved(self.data().whole(), self.ctx, None))

    def c_load_buffer(self, fn, self_, a, k):
        """The content that the buffer holds for the resource."""
        if self_ is not self.root:
            P().prove("only the root accesses the resource", False, {"C04"})
            raise Infeasible
        P().prove("the buffer is only used in buffered mode", self.is_buffered, {"C02", "C05", "C15", "C17"})
        self.event("res", "r")
        self.inject("load")
        data = self.loaded()
        if issubclass(self.root.cls, SharedMemoryFileBufferedCollection):
            self.c_update(fn, self_, [data], {})
            return None
        return data

    def c_save_buffer(self, fn, self_, a, k):
        P().prove("the buffer is only used in buffered mode", self.is_buffered, {"C01", "C05", "C15"})
        self.store(self_, "save")
