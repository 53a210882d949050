"""The bodies of the functions that upper.py uses by contract.

Every implementation that a class resolves a name to is verified against the
contract; calls of the same function inside of the body are by contract, which is
induction over the nesting of the data."""
import collections.abc as abc

import z3

import natives
import optask
from core import *  # noqa: F403
from core import ABSENT, BOOLS, INTS
from interp import MISSING, UnknownC, is_function
from natives import CONV, ISCOMPLEX, ISDICT, ISLIST, PROXY, same_types, strip
from upper import Upper, family_of
from world import *  # noqa: F403
from world import Predicate, SyncedCollection, sc_mod, sc_utils, valid

REJECT = (TypeError, ValueError)


def implementation(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            return getattr(f, "__func__", f), k
    return None, None


def distinct(name, extra=lambda c: None):
    """One class for each implementation of a function and kind of data."""
    seen = {}
    for n, c in optask.classes().items():
        f, owner = implementation(c, name)
        key = (f, family_of(c), tuple(c._all_validators), issubclass(c, abc.Mapping), extra(c))
        seen.setdefault(key, n)
    return sorted(set(seen.values()))


def bad_element(t, family):
    """A key or index of an element that makes the container invalid."""
    p = P()
    p.know(t)
    if p.fork(kind(t) == MAP, "mapping"):
        k = app(f"bad:{family}", V, V)(t)
        p.know(k)
        c = DataMap(t).get(k)
        keyok = kind(k) == STR
        if family == "attr":
            keyok = z3.And(keyok, z3.Not(p.strpred("contains", ".", k)))
        p.assume(z3.And(HAS(t, k), z3.Not(z3.And(keyok, valid(c.term, family)))))
        return k
    i = app(f"badi:{family}", V, INTS)(t)
    c = DataSeq(t).at(i)
    p.assume(z3.And(0 <= i, i < LEN(t), z3.Not(valid(c.term, family))))
    return i


def is_container(t):
    return z3.Or(kind(t) == MAP, kind(t) == SEQ, z3.And(kind(t) == NDARR, NDIM(t) > 0))


def replay_loops(k):
    """The iteration of every loop at k has completed."""
    for dom, at in list(P().loops):
        if dom.keyed == (k.sort() == V):
            if P().fork(zb(dom.has(k)), "in loop"):
                at(k)


# ----------------------------------------------------------------------- _update
def update_task(cls, variant):
    def main(p):
        w = Upper(cls, faults=False)
        ip = w.ip
        fn, owner = implementation(cls, "_update")
        props = {"C01", "C02", "C04"}
        D = z3.Const("D", V)
        K = MAP if w.ismap else SEQ
        p.know(D)
        p.assume(DETACHED(D))
        p.assume(z3.Not(ISSC(D)))
        data = Sym(D)
        if variant == "none":
            data = None
        if variant == "own":
            # the argument of update(): the own nodes and new data
            p.assume(kind(D) == MAP)
            data = DictObj(MergeMap(w.stale, DataMap(D)))
        checked = p.maybe("already validated")
        if checked:
            p.assume(valid(D, w.family))
        try:
            ip.run_function(fn, [w.me, data], {"_validate": True} if checked else {}, owner)
            exc = None
        except PyRaise as e:
            exc = e.exc
        p.prove("synchronisation is enabled again", count_is(w, 0), {"C10", "C01"})
        p.prove("no I/O", not [e for e in w.events if e[0] == "res"], {"C17"})
        now = w.data().content
        if variant == "none" or (variant == "data" and p.fork(kind(D) == NONE, "None")):
            p.prove("None changes nothing", exc is None and now is w.stale, {"C02"})
            return "normal"
        if not p.fork(kind(NORM(D)) == K, "same kind"):
            p.prove("data of another kind is rejected unchanged", exc is not None and issubclass(exc.cls, ValueError) and now is w.stale, {"C03", "C02", "C11"})
            return "raised"
        if not p.fork(valid(D, w.family), "valid"):
            p.prove("invalid data is rejected", True, {"C11"})
            if exc is not None:
                p.prove("invalid data is rejected", issubclass(exc.cls, REJECT), {"C11"})
                return "raised"
            replay_loops(bad_element(D, w.family))
            k = bad_element(D, w.family)
            got = now.get(k) if k.sort() == V else now.at(k)
            p.prove("invalid data is rejected", False, {"C11"})
            return "normal"
        if exc is not None:
            p.prove("valid data is accepted", False, props | {"C12"}, f"raised {exc!r}")
            return "raised"
        p.prove("valid data is accepted", True, props | {"C12"})
        if w.ismap:
            k = z3.Const("kappa", V)
            p.know(k)
            want = DataMap(D) if variant == "data" else MergeMap(w.stale, DataMap(D))
            old_has = p.fork(zb(w.stale.has(k)), "kappa before")
            old = w.stale.get(k) if old_has else None
            old_view = old.view if old is not None else None
            gh, wh = zb(now.has(k)), zb(want.has(k))
            p.prove("the content is that of the data: keys", gh == wh, props)
            if not (p.fork(wh, "kappa wanted") and p.fork(gh, "kappa stored")):
                return "normal"
            g, x = now.get(k), want.get(k)
        else:
            i = z3.Int("iota")
            want = DataSeq(D)
            old_view = old = None
            if p.fork(z3.And(0 <= i, i < w.stale.length()), "iota before"):
                old = w.stale.at(i)
                old_view = old.view
            p.prove("the content is that of the data: length", now.length() == LEN(D), props)
            if not p.fork(z3.And(0 <= i, i < LEN(D), i < now.length()), "iota wanted"):
                return "normal"
            g, x = now.at(i), want.at(i)
        if not isinstance(g, Cell):
            raise Unsupported("stored value")
        xt = x.view if isinstance(x, Cell) else NORM(x.term)
        if not (isinstance(x, Cell) and g is x):
            # objects without a JSON equivalent may be replaced by equal ones
            same = g.view == xt if isinstance(x, Cell) else z3.Implies(JSONOK(x.term), g.view == xt)
            p.prove("the content is that of the data: values", same, props | {"C12", "C19"})
            p.prove("rejected data is not stored", not g.invalid, {"C11"})
        if old is not None:
            p.know(xt)
            keep = z3.And(isnode(old_view), kind(xt) == kind(old_view))
            if p.fork(keep, "same kind as before"):
                p.prove("nested collections of the same kind are kept", g.ident == old.ident, {"C02", "C04"})
            else:
                p.prove("new nested collections belong to this one", True, {"C01", "C04"})
        return "normal"

    return main


def count_is(w, n):
    c = w.root.attrs["_suspend_sync"].attrs["_count"]
    return c == n if isinstance(c, int) else c.term == n


# ------------------------------------------------------------------- _from_base
class Construct(Upper):
    """Collections are constructed by contract."""

    def construct(self, ip, cls, args, kwargs):
        if not self.is_synced_class(cls) or not getattr(self, "by_contract", False):
            return MISSING
        kwargs = dict(kwargs)
        p = P()
        data = kwargs.pop("data", args[0] if args else None)
        p.prove("nested collections belong to the given parent", kwargs.get("parent") is self.me, {"C01", "C04", "C18"})
        t = self.data_term(data)
        K = MAP if issubclass(cls, abc.Mapping) else SEQ
        p.prove("nested collections are of the kind of their data", kind(NORM(t)) == K, {"C03", "C18", "C12"})
        return Cell(NORM(t), z3.Const(p.name("new"), ID), True, cls)


def from_base_task(cls):
    def main(p):
        w = Construct(cls, faults=False)
        w.by_contract = True
        fn, owner = implementation(cls, "_from_base")
        t = z3.Const("D", V)
        p.know(t)
        p.assume(valid(t, w.family))
        try:
            r = w.ip.run_function(fn, [cls], {"data": Sym(t), "parent": w.me}, owner)
        except PyRaise as e:
            p.prove("valid data is accepted", False, {"C12", "C01"}, repr(e.exc))
            return "raised"
        p.prove("valid data is accepted", True, {"C12", "C01"})
        if p.fork(is_container(t), "container"):
            ok = isinstance(r, Cell) and r.cls is not None
            p.prove("containers become nested collections", ok, {"C01", "C18", "C16"})
            if ok:
                p.prove("nested collections are of the family of the root", r.cls._backend == cls._backend, {"C18"})
            return "normal"
        if w.family == "strkey" and not p.fork(JSONOK(t), "JSON"):
            return "normal"
        p.prove("other data is stored as it is", isinstance(r, Sym) and r.term == NORM(t), {"C12", "C01", "C19"})
        return "normal"

    return main


# ------------------------------------------------------------------- constructor
class Building(Upper):
    """_from_base by contract while the receiver is under construction."""

    def make_receiver(self):
        pass

    def c_from_base(self, fn, self_, a, k):
        k = dict(k)
        v = a[0] if a else k.pop("data")
        parent = k.get("parent", a[1] if len(a) > 1 else None)
        self.parents.append(parent)
        return self.new_cell(v)


def constructor_task(cls, variant):
    def main(p):
        w = Building(cls, faults=False)
        ip = w.ip
        w.parents = []
        t = z3.Const("D", V)
        p.know(t)
        K = MAP if w.ismap else SEQ
        kwargs, given = {"data": Sym(t)}, {}
        if variant == "nested":
            root = w.dict_class()
            kw = w.resource_arguments(root)
            w.parent = ip.instantiate(root, [], kw)
            kwargs.update(parent=w.parent, _validate=False)
            p.assume(kind(NORM(t)) == K)
            p.assume(valid(t, w.family))
        else:
            given = w.resource_arguments(cls)
            kwargs.update(given)
            p.assume(kind(NORM(t)) == K)
        w.events.clear()
        try:
            me, exc = ip.instantiate(cls, [], kwargs), None
        except PyRaise as e:
            me, exc = None, e.exc
        p.prove("all locks are released", not any(w.held.values()), {"C10"})
        p.prove("no I/O", not [e for e in w.events if e[0] == "res"], {"C17"})
        if not p.fork(valid(t, w.family), "valid"):
            p.prove("invalid data is rejected", exc is not None and issubclass(exc.cls, REJECT), {"C11"})
            return "raised"
        if exc is not None:
            p.prove("valid data is accepted", False, {"C12"}, repr(exc))
            return "raised"
        p.prove("valid data is accepted", True, {"C12"})
        for n, x in given.items():
            got = [v for a, v in me.attrs.items() if a in (n, "_" + n)] or [v for a, v in me.attrs.items() if v is x]
            if n not in me.attrs and "_" + n not in me.attrs and not got:
                raise Unsupported(f"attribute for {n}")
            p.prove("the constructor keeps its arguments", any(v is x for v in got), {"C01", "C02"} | ({"C08"} if n == "write_concern" else set()), n)
        if variant == "nested":
            p.prove("nested collections share the root", me.attrs.get("_root") is w.parent, {"C01", "C04"})
            for n in ("_suspend_sync", "_load_and_save"):
                p.prove("nested collections share the root", me.attrs.get(n) is w.parent.attrs.get(n), {"C01", "C04", "C09"})
        d = me.attrs.get("_data")
        p.prove("synchronisation is enabled again", me.attrs["_suspend_sync"].attrs["_count"] == 0, {"C10", "C01"})
        p.prove("the class of the data is the built-in one", isinstance(d, DictObj if w.ismap else ListObj), {"C01"})
        c = d.content
        if w.ismap:
            k = z3.Const("kappa", V)
            p.know(k)
            want = DataMap(t)
            p.prove("the content is that of the data: keys", zb(c.has(k)) == zb(want.has(k)), {"C12", "C01"})
            if not p.fork(zb(want.has(k)), "kappa wanted"):
                return "normal"
            g, x = c.get(k), want.get(k)
        else:
            i = z3.Int("iota")
            p.prove("the content is that of the data: length", c.length() == LEN(t), {"C12", "C01"})
            if not p.fork(z3.And(0 <= i, i < LEN(t)), "iota wanted"):
                return "normal"
            g, x = c.at(i), DataSeq(t).at(i)
        p.prove("nested collections belong to the collection they are stored in", all(q is me for q in w.parents) and bool(w.parents), {"C01", "C04"})
        p.prove("the content is that of the data: values", isinstance(g, Cell) and g.view == NORM(x.term), {"C12", "C01"})
        return "normal"

    return main


# ---------------------------------------------------------------- _to_base, _detach
def to_base_task(cls):
    def main(p):
        w = Upper(cls, faults=False)
        fn, owner = implementation(cls, "_to_base")
        r = w.ip.run_function(fn, [w.me], {}, owner)
        props = {"C16", "C01", "C03", "C12"}
        p.prove("the result is a plain container", isinstance(r, DictObj if w.ismap else ListObj) and r is not w.data(), {"C16"})
        p.prove("the memory is not changed", w.data().content is w.stale, {"C17", "C01"})
        c = r.content
        if w.ismap:
            k = z3.Const("kappa", V)
            p.know(k)
            gh, wh = zb(c.has(k)), zb(w.stale.has(k))
            p.prove("the result has the content: keys", gh == wh, props)
            if not p.fork(wh, "kappa present"):
                return "normal"
            g, x = c.get(k), w.stale.get(k)
        else:
            i = z3.Int("iota")
            p.prove("the result has the content: length", c.length() == w.stale.length(), props)
            if not p.fork(z3.And(0 <= i, i < w.stale.length()), "iota in range"):
                return "normal"
            g, x = c.at(i), w.stale.at(i)
        p.prove("the result has the content: values", optask.same_value(g, x), props)
        p.prove("results are detached from the collection", optask.is_detached(g), {"C16"})
        return "normal"

    return main


def detach_task():
    def main(p):
        w = Upper(optask.classes()["JSONDict"], faults=False, receiver=False)
        w.me = w.root = None
        t = z3.Const("D", V)
        p.know(t)
        fn = sc_mod._detach
        try:
            r = w.ip.run_function(fn, [Sym(t)], {}, None)
        except PyRaise as e:
            p.prove("all data is accepted", False, {"C12"}, repr(e.exc))
            return "raised"
        p.prove("all data is accepted", True, {"C12"})
        props = {"C16", "C10", "C12"}
        if isinstance(r, Sym):
            p.know(DET(t))
            p.prove("the result is a detached copy", r.term == DET(t), props)
            return "normal"
        if not isinstance(r, (DictObj, ListObj)):
            raise Unsupported("result")
        K = MAP if isinstance(r, DictObj) else SEQ
        p.prove("the result is of the kind of the data", kind(t) == K, props)
        c = r.content
        if K is MAP:
            k = z3.Const("kappa", V)
            p.know(k)
            want = DataMap(DET(t))
            DataMap(t).get(k)
            gh, wh = zb(c.has(k)), zb(want.has(k))
            p.prove("the result has the content: keys", gh == wh, props)
            if not p.fork(wh, "kappa present"):
                return "normal"
            g, x = c.get(k), want.get(k)
        else:
            i = z3.Int("iota")
            DataSeq(t).at(i)
            want = DataSeq(DET(t))
            p.prove("the result has the content: length", c.length() == LEN(t), props)
            if not p.fork(z3.And(0 <= i, i < LEN(t)), "iota in range"):
                return "normal"
            g, x = c.at(i), want.at(i)
        p.prove("the result has the content: values", isinstance(g, Sym) and g.term == x.term, props)
        p.prove("the result is detached", optask.is_detached(g), props)
        return "normal"

    return main


# -------------------------------------------------------------------- validators
VALIDATORS = {
    "json_format_validator": "json",
    "require_string_key": "strkey",
    "no_dot_in_key": "nodot",
    "json_attr_dict_validator": "attr",
}


def validators():
    found = {}
    for c in optask.classes().values():
        for v in c._all_validators:
            found[v.__name__] = v
    return found


def scalar_axioms(t):
    """What validity means for data that is not a container."""
    p = P()
    c = CONV(t)
    p.know(c)
    base = z3.Or(kind(c) == NONE, kind(c) == BOOL, kind(c) == INT, kind(c) == FLOAT, kind(c) == STR)
    np = z3.Or(NPSCALAR(t), z3.And(kind(t) == NDARR, NDIM(t) == 0))
    p.assume(z3.Implies(np, JSONOK(t) == z3.And(base, z3.Not(NPSCALAR(c)))))
    p.assume(z3.Implies(ISCOMPLEX(t), app("iscomplexobj", V, BOOLS)(t)))
    p.assume(z3.Implies(z3.And(np, app("iscomplexobj", V, BOOLS)(t)), z3.And(kind(c) == OTHER)))


def validator_task(name):
    def main(p):
        fn = validators()[name]
        family = VALIDATORS.get(name)
        if family is None:
            raise Unsupported("validator without a contract")
        w = Upper(optask.classes()["JSONDict"], faults=False, receiver=False)
        w.me = w.root = None
        t = z3.Const("D", V)
        p.know(t)
        scalar_axioms(t)
        f = NODOT(t) if family == "nodot" else valid(t, family)
        try:
            w.ip.run_function(fn, [Sym(t)], {}, None)
            exc = None
        except PyRaise as e:
            exc = e.exc
        props = {"C11", "C12", "C19"}
        if exc is not None:
            p.prove("valid data is accepted", z3.Not(f), {"C12", "C19"}, repr(exc))
            p.prove("rejections are TypeError or ValueError", issubclass(exc.cls, REJECT), {"C11"})
            return "raised"
        p.prove("valid data is accepted", True, {"C12", "C19"})
        p.prove("invalid data is rejected", True, {"C11", "C19"})
        if not p.fork(z3.Not(f), "invalid"):
            return "normal"
        containers = is_container(t) if family in ("json", "attr") else z3.Or(kind(t) == MAP, kind(t) == SEQ)
        if p.fork(containers, "container"):
            if family == "nodot":
                k = bad_nodot(t)
            else:
                k = bad_element(t, family)
            replay_loops(k)
        p.prove("invalid data is rejected", False, {"C11", "C19"})
        return "normal"

    return main


def bad_nodot(t):
    p = P()
    if p.fork(kind(t) == MAP, "mapping"):
        k = app("bad:nodot", V, V)(t)
        p.know(k)
        c = DataMap(t).get(k)
        dot = p.strpred("contains", ".", k)
        p.assume(z3.And(HAS(t, k), z3.Not(z3.And(kind(k) == STR, z3.Not(dot), NODOT(c.term)))))
        return k
    i = app("badi:nodot", V, INTS)(t)
    c = DataSeq(t).at(i)
    p.assume(z3.And(0 <= i, i < LEN(t), z3.Not(NODOT(c.term))))
    return i


# --------------------------------------------------------------------- resolvers
def resolvers():
    """Every type resolver of the library, by name."""
    import importlib
    import pkgutil

    import synced_collections as pkg

    out = {}
    for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
        try:
            mod = importlib.import_module(m.name)
        except Exception:  # noqa: BLE001
            continue
        for n, v in vars(mod).items():
            if isinstance(v, sc_utils.AbstractTypeResolver) and id(v) not in [id(x) for x in out.values()]:
                out[f"{m.name.replace('synced_collections.', '')}.{n}"] = v
    return out


def resolver_task(name):
    """The result for x is that of the identifiers, whatever was classified before."""

    def main(p):
        r = resolvers()[name]
        w = Upper(optask.classes()["JSONDict"], faults=False, receiver=False)
        w.me = w.root = None
        me = w.wrap(r)
        for n, v in me.attrs.items():
            if isinstance(v, Heap):
                v.content = EmptyMap() if isinstance(v, DictObj) else LitSeq([])
        fn, owner = implementation(type(r), "get_type")
        x, y = z3.Const("x", V), z3.Const("y", V)
        for t in (x, y):
            p.know(t)
        same_types(x, y)
        before = p.maybe("something was classified before")
        try:
            if before:
                w.ip.run_function(fn, [me, Sym(y)], {}, owner)
            got = w.ip.run_function(fn, [me, Sym(x)], {}, owner)
            want = w.c_get_type(fn, me, [Sym(x)], {})
        except PyRaise as e:
            p.prove("all data can be classified", False, {"C19", "C12"}, repr(e.exc))
            return "raised"
        p.prove("all data can be classified", True, {"C19", "C12"})
        p.prove("the classification depends on the value only", got == want, {"C19", "C11", "C12"}, f"{got} instead of {want}")
        return "normal"

    return main


# ---------------------------------------------------------- _convert_numpy, encoder
def convert_task():
    def main(p):
        import synced_collections.numpy_utils as nu

        w = Upper(optask.classes()["JSONDict"], faults=False, receiver=False)
        w.me = w.root = None
        t = z3.Const("D", V)
        p.know(t)
        d = Sym(t)
        try:
            r = w.ip.run_function(nu._convert_numpy, [d], {}, None)
        except PyRaise as e:
            p.prove("all data is accepted", False, {"C12"}, repr(e.exc))
            return "raised"
        p.prove("all data is accepted", True, {"C12"})
        if p.fork(z3.Or(kind(t) == NDARR, NPSCALAR(t)), "numpy data"):
            p.prove("numpy data is converted", isinstance(r, Sym) and r.term == CONV(t), {"C12", "C19"})
        else:
            p.prove("other data is unchanged", r is d, {"C12", "C16", "C19"})
        return "normal"

    return main


def encoder_task(cls):
    """The encoder replaces a collection by its data and numpy data by plain data."""

    def main(p):
        w = Upper(cls, faults=False)
        fn = sc_utils.SyncedCollectionJSONEncoder.__dict__["default"]
        enc = Obj(sc_utils.SyncedCollectionJSONEncoder)
        if p.maybe("another object"):
            try:
                w.ip.run_function(fn, [enc, Obj(object)], {}, sc_utils.SyncedCollectionJSONEncoder)
            except PyRaise as e:
                p.prove("other objects are rejected", issubclass(e.exc.cls, REJECT), {"C08", "C11"})
                return "raised"
            p.prove("other objects are rejected", False, {"C08", "C11"})
            return "normal"
        which = p.maybe("a collection")
        t = z3.Const("D", V)
        p.know(t)
        p.assume(z3.Or(kind(t) == NDARR, NPSCALAR(t)))
        arg = w.me if which else Sym(t)
        try:
            r, exc = w.ip.run_function(fn, [enc, arg], {}, sc_utils.SyncedCollectionJSONEncoder), None
        except PyRaise as e:
            r, exc = None, e.exc
        if which:
            p.prove("collections are encoded by their data", exc is None and r is w.data() and w.data().content is w.stale, {"C01", "C12", "C05"})
            p.prove("encoding does not access the resource", not [e for e in w.events if e[0] == "res"], {"C17", "C01"})
            return "normal"
        if p.fork(z3.Or(kind(t) == NDARR, NPSCALAR(t)), "numpy data"):
            scalar_axioms(t)
            if p.fork(JSONOK(t), "JSON data"):
                p.prove("numpy data is encoded by its plain equivalent", exc is None and isinstance(r, Sym) and r.term == CONV(t), {"C12", "C01"})
                return "normal"
        if exc is not None:
            p.prove("rejections are TypeError or ValueError", issubclass(exc.cls, REJECT), {"C11", "C08"})
        return "raised" if exc else "normal"

    return main


# ------------------------------------------------------------------------- tasks
def tasks():
    out = {}
    for n in distinct("_update"):
        c = optask.classes()[n]
        for v in ["data", "none"] + (["own"] if issubclass(c, abc.Mapping) else []):
            out[f"{n}._update[{v}]"] = (update_task, (n, v))
    for n in distinct("_from_base", lambda c: c._backend):
        out[f"{n}._from_base"] = (from_base_task, (n,))
    for n in distinct("__init__"):
        for v in ("root", "nested"):
            out[f"{n}.__init__[{v}]"] = (constructor_task, (n, v))
    for n in distinct("_to_base"):
        out[f"{n}._to_base"] = (to_base_task, (n,))
    out["_detach"] = (detach_task, ())
    for n in validators():
        out[n] = (validator_task, (n,))
    for n in resolvers():
        out[f"{n}.get_type"] = (resolver_task, (n,))
    out["_convert_numpy"] = (convert_task, ())
    for n in ("JSONDict", "JSONList"):
        out[f"SyncedCollectionJSONEncoder.default[{n}]"] = (encoder_task, (n,))
    return out

