"""Semantics of built-in types and functions, and assumed contracts of the
standard library and of third-party functions."""
import ast
import builtins
import collections.abc as abc
import errno
import types

import z3

import interp as I
from core import *  # noqa: F403
from core import BOOLS, INTS
from interp import MISSING

try:
    import numpy
except ImportError:
    numpy = None

ITERABLE = app("iterable", V, BOOLS)
LISTOF = app("listof", V, V)
DICTOF = app("dictof", V, V)
PAIRS = app("pairs", V, BOOLS)
HASHABLE = app("hashable", V, BOOLS)
PROXY = app("proxy", V, BOOLS)
CONV = app("conv", V, V)
ISDICT = app("isdict", V, BOOLS)
ISLIST = app("islist", V, BOOLS)
ISTUPLE = app("istuple", V, BOOLS)
ISCOMPLEX = app("iscomplex", V, BOOLS)
CMPOK = app("cmpok", V, V, BOOLS)
CONTAINS = app("containsv", V, V, BOOLS)
ITEM = app("item", V, V)
ISSAME = app("issame", V, V, BOOLS)


def strip(t):
    """Equality does not distinguish a collection from its detached copy."""
    while z3.is_app(t) and t.decl().eq(DET):
        t = t.arg(0)
    return t


def pyeq(a, b):
    """Formula for a == b of data terms."""
    a, b = strip(a), strip(b)
    if a.eq(b):
        return z3.BoolVal(True)
    p = P()
    for t in (a, b):
        p.know(t)
    f = PYEQ(a, b)
    p.assume(z3.Implies(a == b, f))
    p.assume(f == PYEQ(b, a))
    p.assume(z3.Implies(z3.And(f, kind(a) == STR), z3.And(kind(b) == STR, a == b)))
    p.assume(z3.Implies(z3.And(f, kind(b) == STR), z3.And(kind(a) == STR, a == b)))
    p.assume(z3.Implies(z3.And(f, kind(b) == NONE, kind(a) == NONE), a == b))
    plain = [z3.And(kind(x) != MAP, kind(x) != SEQ, kind(x) != NDARR, kind(x) != OTHER) for x in (a, b)]
    p.assume(z3.Implies(z3.And(f, SAMETYPE(a, b), *plain), a == b))
    # the value of different kinds may be equal only for numbers
    num = lambda x: z3.Or(kind(x) == BOOL, kind(x) == INT, kind(x) == FLOAT)  # noqa: E731
    p.assume(z3.Implies(z3.And(f, *plain, kind(a) != kind(b)), z3.And(num(a), num(b))))
    return f


def sametype(a, b):
    p = P()
    f = SAMETYPE(a, b)
    p.assume(f == SAMETYPE(b, a))
    p.assume(z3.Implies(a == b, f))
    p.assume(
        z3.Implies(
            # objects that pretend to be of another type are not all alike
            z3.And(f, z3.Not(PROXY(a)), z3.Not(PROXY(b))),
            z3.And(
                kind(a) == kind(b), NPSCALAR(a) == NPSCALAR(b), ISSC(a) == ISSC(b),
                COLLECTION(a) == COLLECTION(b), ISDICT(a) == ISDICT(b), ISLIST(a) == ISLIST(b),
            ),
        )
    )  # fmt: skip
    return f


def same_types(a, b):
    """Register that the types of two terms may be compared."""
    f = sametype(a, b)
    tid = app("typeid", V, V)
    P().assume(f == (tid(a) == tid(b)))
    P().memo.setdefault("same", []).append((a, b))
    return f


# -------------------------------------------------------------- domains
class MapDomain:
    keyed = True

    def __init__(self, content, what):
        self.content, self.what = content, what

    def generic(self, p):
        k = p.fresh("key")
        p.know(k)
        p.assume(zb(self.content.has(k)))
        return k

    def has(self, k):
        return self.content.has(k)

    def elem(self, k):
        if self.what == "keys":
            return Sym(k)
        if self.what == "values":
            return self.content.get(k)
        return (Sym(k), self.content.get(k))

    def length(self):
        return self.content.length()

    def sequence(self, f):
        raise Unsupported("list in the order of a mapping")

    def after(self, base, at, cid):
        def touched(k):
            if not P().fork(zb(self.has(k)), "in loop"):
                return None
            return at(k)[0].overlay.get(cid)

        def has(k):
            o = touched(k)
            return base.has(k) if o is None else o[1] is not ABSENT

        def get(k):
            o = touched(k)
            if o is None:
                return base.get(k)
            if o[1] is ABSENT:
                raise Infeasible
            return o[1]

        if not isinstance(base, MapC):
            raise Unsupported("loop over keys changes a list")
        return FunMap(has, get)


class SeqDomain:
    keyed = False

    def __init__(self, length, elem):
        self._length, self.elem = length, elem

    def length(self):
        return self._length

    def generic(self, p):
        i = p.fresh("i", INTS)
        p.assume(z3.And(0 <= i, i < self._length))
        return i

    def has(self, i):
        return z3.And(0 <= i, i < self._length)

    def sequence(self, f):
        return FunSeq(lambda: self._length, f)

    def after(self, base, at, cid):
        if not isinstance(base, SeqC):
            raise Unsupported("loop over indices changes a dict")

        def get(i):
            if not P().fork(self.has(i), "in loop"):
                return base.at(i)
            o = at(i)[0].overlay.get(cid)
            return base.at(i) if o is None else o[1]

        return FunSeq(base.length, get)


PLAIN = (type(None), bool, int, float, str, bytes, type, frozenset, types.FunctionType)


def index_arguments(t, v, start=0, stop=None):
    """The arguments of list.index with the range as positions of the list."""
    n = LEN(t)

    def position(i):
        if not isinstance(i, (int, SInt)):
            raise Unsupported("range of index")
        i = i.term if isinstance(i, SInt) else z3.IntVal(i)
        return z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))

    return strip(term(v)), position(start), n if stop is None else position(stop)


class Natives:
    def __init__(self, ip):
        self.ip = ip
        self.w = ip.w

    # --------------------------------------------------------------- helpers
    def key(self, k):
        if isinstance(k, TypeOf):
            return app("typeid", V, V)(term(k.value))
        return k if isinstance(k, z3.ExprRef) else term(k) if not isinstance(k, (Obj, TermV)) else ident(k)

    def hashable(self, k):
        if isinstance(k, Sym):
            P().know(k.term)
            P().assume(z3.Implies(kind(k.term) == STR, HASHABLE(k.term)))
            if not P().fork(HASHABLE(k.term), "hashable"):
                raise PyRaise(Exc(TypeError, ("unhashable",)))
        elif isinstance(k, (DictObj, ListObj)):
            raise PyRaise(Exc(TypeError, ("unhashable",)))

    def foreign(self, t):
        """Data provided by the caller is read."""
        self.w.foreign_read(t)

    def mapping_content(self, v):
        """The content of a mapping for reading."""
        if isinstance(v, DictObj):
            return v.whole()
        if isinstance(v, Sym):
            P().know(v.term)
            if not P().fork(kind(v.term) == MAP, "mapping"):
                raise PyRaise(Exc(TypeError, ("not a mapping",)))
            self.foreign(v.term)
            return DataMap(v.term, v.owner)
        if isinstance(v, dict):
            m = EmptyMap()
            for k, x in v.items():
                m = PutMap(m, self.key(k), self.w.wrap(x))
            return m
        if isinstance(v, Iter) and v.what == "items":
            return self.mapping_content(v.base)
        raise Unsupported(f"mapping content of {v!r}")

    def seq_content(self, v):
        """The elements of an iterable with an order, or None."""
        if isinstance(v, ListObj):
            return v.whole()
        if isinstance(v, Sym):
            t = v.term
            P().know(t)
            if P().fork(z3.Or(kind(t) == SEQ, z3.And(kind(t) == NDARR, NDIM(t) > 0)), "sequence"):
                self.foreign(t)
                return DataSeq(t, v.owner)
            return None
        if isinstance(v, tuple):
            return LitSeq(v)
        if isinstance(v, Iter):
            if v.what == "iter":
                return self.seq_content(v.base)
            if v.what == "reversed":
                c = self.seq_content(v.base)
                return None if c is None else RevSeq(c)
        return None

    def concrete_items(self, v):
        if isinstance(v, (tuple, list)):
            return [self.w.wrap(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return [self.w.wrap(x) for x in sorted(v, key=repr)]
        if isinstance(v, (dict, types.MappingProxyType)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, ListObj):
            return v.whole().concrete() if isinstance(v.content, SeqC) else None
        if isinstance(v, Iter):
            if v.what in ("iter", "keys") and not isinstance(v.base, DictObj):
                return self.concrete_items(v.base)
            if v.what == "reversed":
                x = self.concrete_items(v.base)
                return None if x is None else x[::-1]
            if v.what == "zip":
                xs = [self.concrete_items(b) for b in v.base]
                return None if any(x is None for x in xs) else [tuple(z) for z in zip(*xs)]
            if v.what == "enumerate":
                x = self.concrete_items(v.base)
                return None if x is None else list(enumerate(x))
            if v.what == "items" and isinstance(v.base, dict):
                return [(k, self.w.wrap(x)) for k, x in v.base.items()]
            if v.what == "values" and isinstance(v.base, dict):
                return [self.w.wrap(x) for x in v.base.values()]
            if isinstance(v.base, DictObj) and isinstance(v.base.content, MapC):
                ks = v.base.content.concrete_keys()
                if ks is None:
                    return None
                m = v.base.whole()
                pairs = [(k, m) for k in ks]
                if v.what in ("keys", "iter"):
                    return [self.pykey(k) for k, _ in pairs]
                if v.what == "values":
                    return [m.get(k) for k, _ in pairs]
                if v.what == "items":
                    return [(self.pykey(k), m.get(k)) for k, _ in pairs]
            return None
        if isinstance(v, DictObj):
            return self.concrete_items(Iter("keys", v))
        if isinstance(v, KeysOf):
            ks = v.content.concrete_keys()
            return None if ks is None else [self.pykey(k) for k in ks]
        if v is None or isinstance(v, (int, float, bool, SInt, SBool)):
            raise PyRaise(Exc(TypeError, ("not iterable",)))
        return None

    def pykey(self, k):
        for s, t in P().strs.items():
            if t.eq(k):
                return s
        if k.sort() == V:
            return Sym(k)
        raise Unsupported("key")

    def domain(self, v):
        """How to iterate over v symbolically."""
        if isinstance(v, Iter):
            if v.what in ("keys", "values", "items"):
                if isinstance(v.base, (DictObj, Sym, dict)):
                    return MapDomain(self.mapping_content(v.base), v.what)
            if v.what == "range":
                lo, hi = v.base
                n = z3.simplify(z3.If(hi - lo > 0, hi - lo, 0))
                return SeqDomain(n, lambda i: SInt(z3.simplify(lo + i)))
            if v.what == "enumerate":
                c = self.seq_content(v.base)
                if c is not None:
                    return SeqDomain(c.length(), lambda i: (SInt(i), c.at(i)))
            if v.what == "zip":
                cs = [self.seq_content(b) for b in v.base]
                if all(c is not None for c in cs):
                    n = cs[0].length()
                    for c in cs[1:]:
                        n = z3.If(c.length() < n, c.length(), n)
                    return SeqDomain(n, lambda i: tuple(c.at(i) for c in cs))
            if v.what == "iter" and isinstance(v.base, (DictObj, KeysOf)):
                return self.domain(v.base)
        if isinstance(v, KeysOf):
            return MapDomain(v.content, "keys")
        if isinstance(v, DictObj):
            return MapDomain(v.whole(), "keys")
        if isinstance(v, Sym):
            t = v.term
            P().know(t)
            if P().fork(kind(t) == MAP, "mapping"):
                self.foreign(t)
                return MapDomain(DataMap(t, v.owner), "keys")
            c = self.seq_content(v)
            if c is not None:
                return SeqDomain(c.length(), c.at)
            k = kind(t)
            if P().fork(z3.Or(k == NONE, k == BOOL, k == INT, k == FLOAT, k == NDARR), "not iterable"):
                raise PyRaise(Exc(TypeError, ("not iterable",)))
            raise Unsupported("iteration over arbitrary data")
        c = self.seq_content(v)
        if c is not None:
            return SeqDomain(c.length(), c.at)
        raise Unsupported(f"iteration over {v!r}")

    # ----------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return P().fork(v.term, "condition")
        if isinstance(v, SInt):
            return P().fork(v.term != 0, "nonzero")
        if v is None:
            return False
        if isinstance(v, (int, str, bytes, float, tuple, list, dict, frozenset)):
            return bool(v)
        if isinstance(v, (Sym, Cell)):
            t = term(v)
            P().know(t)
            P().assume(z3.Implies(kind(t) == NONE, z3.Not(TRUTHY(t))))
            P().assume(z3.Implies(kind(t) == MAP, TRUTHY(t) == (MLEN(t) > 0)))
            P().assume(z3.Implies(kind(t) == SEQ, TRUTHY(t) == (LEN(t) > 0)))
            if isinstance(v, Cell) and self.w.held:
                pass
            return P().fork(TRUTHY(t), "truthy")
        if isinstance(v, Obj):
            for name in ("__bool__", "__len__"):
                m, owner = self.ip.cls_lookup(v.cls, name)
                if m is not MISSING:
                    return self.truth(self.ip.call(self.ip.bind(m, v, v.cls, owner), [], {}))
            return True
        if isinstance(v, DictObj):
            ks = v.content.concrete_keys()
            if ks is not None:
                return bool(ks)
            return P().fork(v.whole().length() > 0, "nonempty")
        if isinstance(v, ListObj):
            return P().fork(v.length() > 0, "nonempty")
        if isinstance(v, TermV):
            return P().fork(app(f"truthy:{v.term.sort()}", v.term.sort(), BOOLS)(v.term), "truthy")
        if isinstance(v, Blob):
            return True
        if isinstance(v, Opaque):
            return P().maybe(f"{v.what} is truthy")
        if isinstance(v, (type, types.ModuleType, types.FunctionType, Bound, Native, Closure, Exc, Lock, Iter)):
            return True
        raise Unsupported(f"truth of {v!r}")

    # ------------------------------------------------------------- attributes
    def getattr(self, obj, name):
        ip = self.ip

        def native(f):
            return Native(name, f)

        if isinstance(obj, types.ModuleType):
            if not hasattr(obj, name):
                raise PyRaise(Exc(AttributeError, (name,)))
            return self.w.wrap(getattr(obj, name))
        if isinstance(obj, Lock):
            if name in ("__enter__", "acquire"):
                return native(lambda a, k: self.w.acquire(obj))
            if name in ("__exit__", "release"):
                return native(lambda a, k: self.w.release(obj))
        if isinstance(obj, Exc):
            if name in obj.attrs:
                return obj.attrs[name]
            if name == "args":
                return obj.args
            if name == "errno":
                return Opaque("errno")
            if name == "__class__":
                return obj.cls
            if name == "with_traceback":
                return native(lambda a, k: obj)
            raise PyRaise(Exc(AttributeError, (name,)))
        if isinstance(obj, DictObj):
            m = getattr(self, "dict_" + name, None)
            if m:
                return native(lambda a, k: m(obj, *a, **k))
        if isinstance(obj, ListObj):
            m = getattr(self, "list_" + name, None)
            if m:
                return native(lambda a, k: m(obj, *a, **k))
        if isinstance(obj, Cell):
            return self.w.cell_attr(ip, obj, name)
        if isinstance(obj, Sym):
            return self.sym_attr(obj, name)
        if isinstance(obj, TypeOf):
            return Opaque(f"type.{name}", obj)
        if isinstance(obj, (dict, types.MappingProxyType)):
            if name in ("items", "keys", "values"):
                return native(lambda a, k: Iter(name, obj))
            if name == "get":
                return native(lambda a, k: self.w.wrap(obj.get(*a)))
        if isinstance(obj, (str, frozenset, tuple, bytes)):
            if name in ("format", "join", "encode", "decode") or not all(
                True for _ in ()
            ):
                return native(lambda a, k: Opaque("text", obj, *a))

            def concrete(a, k):
                if any(isinstance(x, (Sym, Cell, SInt, Opaque, TermV)) for x in a):
                    raise Unsupported(f"{name} of a constant")
                return getattr(obj, name)(*a, **k)

            return native(concrete)
        if isinstance(obj, (SInt, SBool, int, float)) or obj is None:
            raise PyRaise(Exc(AttributeError, (name,)))
        if isinstance(obj, TermV):
            return self.w.term_attr(ip, obj, name)
        if isinstance(obj, Blob):
            return self.w.blob_attr(ip, obj, name)
        if isinstance(obj, Opaque):
            if obj.what == "text" or obj.what.startswith("type."):
                return native(lambda a, k: Opaque("text", obj, *a))
            return self.w.opaque_attr(ip, obj, name)
        if isinstance(obj, (types.FunctionType, Bound, Closure)):
            raise Unsupported(f"attribute {name} of a function")
        if isinstance(obj, Iter):
            if name == "__next__":
                raise Unsupported("next")
            if name == "mapping":
                return obj.base
        if isinstance(obj, GenCtx):
            raise Unsupported("explicit use of a generator context")
        if isinstance(obj, property):
            return getattr(obj, name)
        raise Unsupported(f"attribute {name} of {obj!r}")

    def sym_attr(self, obj, name):
        t = obj.term
        P().know(t)

        def native(f):
            return Native(name, f)

        if name == "__class__":
            return TypeOfClass(obj)
        if name in ("items", "keys", "values"):
            if not P().fork(kind(t) == MAP, "mapping"):
                raise PyRaise(Exc(AttributeError, (name,)))
            return native(lambda a, k: Iter(name, obj))
        if name == "get" or name == "__getitem__":
            if not P().fork(kind(t) == MAP, "mapping"):
                raise PyRaise(Exc(AttributeError, (name,)))
            d = DictObj(self.mapping_content(obj))
            return native(lambda a, k: getattr(self, "dict_" + name)(d, *a, **k))
        if name in ("index", "count"):

            def search(a, k):
                return self.search(name, t, a)

            if not P().fork(kind(t) == SEQ, "sequence"):
                raise PyRaise(Exc(AttributeError, (name,)))
            return native(search)
        if name == "startswith":
            return native(lambda a, k: SBool(P().strpred("startswith", a[0], t)))
        if name == "endswith":
            return native(lambda a, k: SBool(P().strpred("endswith", a[0], t)))
        if name == "ndim":
            if not P().fork(kind(t) == NDARR, "array"):
                raise PyRaise(Exc(AttributeError, (name,)))
            return SInt(NDIM(t))
        if name in ("tolist", "item"):
            if not P().fork(z3.Or(kind(t) == NDARR, NPSCALAR(t)), "numpy"):
                raise PyRaise(Exc(AttributeError, (name,)))
            if name == "item" and not P().fork(z3.Or(kind(t) != NDARR, NDIM(t) == 0), "scalar"):
                raise Unsupported("item of an array")
            return native(lambda a, k: self.conv(obj))
        if name in ("dtype", "shape"):
            return Opaque(name, obj)
        if name == "_data":
            raise Unsupported("_data of arbitrary data")
        if name in ("copy",) and P().entails(z3.Or(kind(t) == MAP, kind(t) == SEQ)):
            return native(lambda a, k: Sym(t, "copy"))
        raise Unsupported(f"attribute {name} of arbitrary data")

    def conv(self, obj):
        """The plain equivalent of a numpy array or scalar."""
        t, p = obj.term, P()
        c = CONV(t)
        p.know(c)
        arr = z3.And(kind(t) == NDARR, NDIM(t) > 0)
        p.assume(z3.Implies(arr, z3.And(kind(c) == SEQ, LEN(c) == LEN(t), ISLIST(c))))
        p.assume(z3.Implies(z3.Not(arr), z3.And(kind(c) != MAP, kind(c) != SEQ, kind(c) != NDARR)))
        p.assume(z3.Not(ISSC(c)))
        p.assume(z3.And(NORM(c) == NORM(t), DETACHED(c), z3.Not(PROXY(c))))
        for f in (JSONOK, NODOT, STRKEY):
            p.assume(z3.Implies(f(t), f(c)))
            p.assume(z3.Implies(z3.And(f(c), arr), f(t)))
        p.assume(z3.Implies(z3.And(z3.Not(arr), JSONOK(t)), c == NORM(t)))
        return Sym(c, "fresh")

    # ------------------------------------------------------------ subscripts
    def index(self, i, n):
        """Position of index i in a list of length n; raises IndexError."""
        if isinstance(i, bool) or i is None or isinstance(i, (str, float)):
            raise PyRaise(Exc(TypeError, ("index",)))
        if isinstance(i, Sym):
            k = kind(i.term)
            if not P().fork(z3.Or(k == INT, k == BOOL), "index is an int"):
                raise PyRaise(Exc(TypeError, ("index",)))
            i = INTV(i.term)
        else:
            i = i.term if isinstance(i, SInt) else z3.IntVal(i)
        if P().fork(i < 0, "negative index"):
            i = z3.simplify(i + n)
        if not P().fork(z3.And(0 <= i, i < n), "index in range"):
            raise PyRaise(Exc(IndexError))
        return i

    def bounds(self, s, n):
        """lo, hi of a slice without step, clamped."""
        if s.step is not None:
            raise Unsupported("slice with a step")

        def clamp(x, default):
            if x is None:
                return default
            x = x.term if isinstance(x, SInt) else z3.IntVal(x)
            if P().fork(x < 0, "negative"):
                x = x + n
                if P().fork(x < 0, "below"):
                    return z3.IntVal(0)
            elif P().fork(x > n, "beyond"):
                return n
            return z3.simplify(x)

        lo, hi = clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)
        if P().fork(hi < lo, "empty slice"):
            hi = lo
        return lo, hi

    def getitem(self, obj, k):
        if isinstance(obj, Obj):
            m, owner = self.ip.cls_lookup(obj.cls, "__getitem__")
            if m is MISSING:
                raise PyRaise(Exc(TypeError))
            return self.ip.call(self.ip.bind(m, obj, obj.cls, owner), [k], {})
        if isinstance(obj, DictObj):
            self.hashable(k)
            k = self.key(k)
            if not P().fork(zb(obj.has(k)), "key present"):
                raise PyRaise(Exc(KeyError, (k,)))
            return obj.get(k)
        if isinstance(obj, ListObj):
            if isinstance(k, slice):
                c = obj.whole()
                return ListObj(SliceSeq(c, *self.bounds(k, c.length())))
            if isinstance(k, SSlice):
                return ListObj(k.get(obj.whole()))
            return obj.at(self.index(k, obj.length()))
        if isinstance(obj, Sym):
            t = obj.term
            P().know(t)
            if P().fork(kind(t) == MAP, "mapping"):
                self.foreign(t)
                self.hashable(k)
                k = self.key(k)
                if not P().fork(HAS(t, k), "key present"):
                    raise PyRaise(Exc(KeyError, (k,)))
                return DataMap(t, obj.owner).get(k)
            c = self.seq_content(obj)
            if c is None:
                raise Unsupported("subscript of arbitrary data")
            if isinstance(k, slice):
                return ListObj(SliceSeq(c, *self.bounds(k, c.length())), owner="slice")
            return c.at(self.index(k, c.length()))
        if isinstance(obj, (tuple, list)):
            if isinstance(k, int):
                try:
                    return self.w.wrap(obj[k])
                except IndexError:
                    raise PyRaise(Exc(IndexError)) from None
        if isinstance(obj, (dict, types.MappingProxyType)):
            if not isinstance(k, PLAIN):
                raise Unsupported("item of a constant")
            try:
                return self.w.wrap(obj[k])
            except KeyError:
                raise PyRaise(Exc(KeyError)) from None
        if isinstance(obj, Cell):
            raise Unsupported("subscript of a nested node")
        if isinstance(obj, TermV):
            return self.w.term_item(self.ip, obj, k)
        if isinstance(obj, Opaque):
            return self.ip.call(self.w.opaque_attr(self.ip, obj, "__getitem__"), [k], {})
        raise Unsupported(f"subscript of {obj!r}")

    def setitem(self, obj, k, v):
        if isinstance(obj, Obj):
            m, owner = self.ip.cls_lookup(obj.cls, "__setitem__")
            if m is MISSING:
                raise PyRaise(Exc(TypeError))
            return self.ip.call(self.ip.bind(m, obj, obj.cls, owner), [k, v], {})
        if isinstance(obj, DictObj):
            self.hashable(k)
            return obj.put(self.key(k), v)
        if isinstance(obj, ListObj):
            if isinstance(k, (slice, SSlice)):
                new, c = self.assigned(v), obj.whole()
                if isinstance(k, SSlice):
                    return obj.replace(k.set(c, new))
                n = c.length()
                lo, hi = self.bounds(k, n)
                return obj.replace(ConcatSeq(ConcatSeq(SliceSeq(c, z3.IntVal(0), lo), new), SliceSeq(c, hi, n)))
            return obj.setat(self.index(k, obj.length()), v)
        if isinstance(obj, TermV):
            return self.w.term_setitem(self.ip, obj, k, v)
        if isinstance(obj, Sym):
            self.w.user_write(obj)
        if isinstance(obj, Opaque):
            return self.ip.call(self.w.opaque_attr(self.ip, obj, "__setitem__"), [k, v], {})
        raise Unsupported(f"item assignment on {obj!r}")

    def assigned(self, v):
        """The elements of what is assigned to a slice."""
        if isinstance(v, Cell):
            return self.w.cell_elements(v)
        c = self.seq_content(v)
        if c is None and isinstance(v, Sym):
            c = self.seq_content(self.to_list(v))
        if c is None:
            raise Unsupported("slice assignment")
        return c

    def delitem(self, obj, k):
        if isinstance(obj, Obj):
            m, owner = self.ip.cls_lookup(obj.cls, "__delitem__")
            if m is MISSING:
                raise PyRaise(Exc(TypeError))
            return self.ip.call(self.ip.bind(m, obj, obj.cls, owner), [k], {})
        if isinstance(obj, DictObj):
            self.hashable(k)
            k = self.key(k)
            if not P().fork(zb(obj.has(k)), "key present"):
                raise PyRaise(Exc(KeyError, (k,)))
            return obj.delete(k)
        if isinstance(obj, ListObj):
            c = obj.whole()
            if isinstance(k, slice):
                n = c.length()
                lo, hi = self.bounds(k, n)
                return obj.replace(ConcatSeq(SliceSeq(c, z3.IntVal(0), lo), SliceSeq(c, hi, n)))
            if isinstance(k, SSlice):
                return obj.replace(k.delete(c))
            i = self.index(k, c.length())
            return obj.replace(DelSeq(c, i))
        if isinstance(obj, Sym):
            self.w.user_write(obj)
        raise Unsupported(f"del item of {obj!r}")

    # ---------------------------------------------------------- dict methods
    def dict___getitem__(self, d, k):
        return self.getitem(d, k)

    def dict___contains__(self, d, k):
        return self.contains(k, d)

    def dict___len__(self, d):
        return self.len(d)

    def dict_get(self, d, k, default=None):
        self.hashable(k)
        k = self.key(k)
        return d.get(k) if P().fork(zb(d.has(k)), "key present") else default

    def dict_pop(self, d, k, default=MISSING):
        self.hashable(k)
        k = self.key(k)
        if P().fork(zb(d.has(k)), "key present"):
            v = d.get(k)
            d.delete(k)
            return v
        if default is MISSING:
            raise PyRaise(Exc(KeyError, (k,)))
        return default

    def dict_popitem(self, d):
        c = d.whole()
        ks = c.concrete_keys()
        if ks is not None:
            if not ks:
                raise PyRaise(Exc(KeyError))
            k = ks[-1]
        else:
            if not P().fork(c.length() > 0, "nonempty"):
                raise PyRaise(Exc(KeyError))
            k = self.w.last_key(c)
            P().know(k)
            P().assume(zb(c.has(k)))
        v = d.get(k)
        d.delete(k)
        return (self.pykey(k), v)

    def dict_setdefault(self, d, k, default=None):
        self.hashable(k)
        k = self.key(k)
        self.ip.w.atomic += 1
        try:
            if P().fork(zb(d.has(k)), "key present"):
                return d.get(k)
            d.put(k, default)
            return default
        finally:
            self.ip.w.atomic -= 1

    def dict_clear(self, d):
        d.replace(EmptyMap())

    def dict_copy(self, d):
        return DictObj(d.whole())

    def dict_update(self, d, other=None, **kw):
        c = d.whole()
        if other is not None:
            m = self.mapping_content(other)
            ks = m.concrete_keys()
            if ks is not None:
                for k in ks:
                    c = PutMap(c, k, m.get(k))
            else:
                c = MergeMap(c, m)
        for k, v in kw.items():
            c = PutMap(c, P().vstr(k), v)
        d.replace(c)

    def dict_keys(self, d):
        return Iter("keys", d)

    def dict_values(self, d):
        return Iter("values", d)

    def dict_items(self, d):
        return Iter("items", d)

    # ---------------------------------------------------------- list methods
    def list_append(self, d, v):
        d.append(v)

    def list_extend(self, d, other):
        items = self.concrete_items(other)
        c = d.whole()
        if items is not None:
            d.replace(ConcatSeq(c, LitSeq(items)) if items else c)
            return
        o = self.seq_content(other)
        if o is None:
            raise Unsupported("extend by an arbitrary iterable")
        d.replace(ConcatSeq(c, o))

    def list_insert(self, d, i, v):
        c = d.whole()
        n = c.length()
        i = i.term if isinstance(i, SInt) else z3.IntVal(i) if isinstance(i, int) else None
        if i is None:
            raise Unsupported("insert")
        if P().fork(i < 0, "negative index"):
            i = z3.simplify(i + n)
            if P().fork(i < 0, "below"):
                i = z3.IntVal(0)
        elif P().fork(i > n, "beyond"):
            i = n
        d.replace(InsertSeq(c, i, v))

    def list_pop(self, d, i=-1):
        c = d.whole()
        i = self.index(i, c.length())
        v = c.at(i)
        d.replace(DelSeq(c, i))
        return v

    def list_remove(self, d, v):
        c = d.whole()
        i = self.w.find(c, v)
        if not P().fork(i >= 0, "element present"):
            raise PyRaise(Exc(ValueError, ("not in list",)))
        d.replace(DelSeq(c, i))

    def list_reverse(self, d):
        d.replace(RevSeq(d.whole()))

    def list_clear(self, d):
        d.replace(LitSeq([]))

    def list_copy(self, d):
        return ListObj(d.whole())

    def list_index(self, d, *a):
        return self.search_list("index", d, a)

    def list_count(self, d, *a):
        return self.search_list("count", d, a)

    def search_list(self, name, d, a):
        t = self.as_term(d)
        if t is None:
            raise Unsupported(name)
        if isinstance(d.content, LitSeq) and not d.content.items:
            if name == "count":
                return 0
            raise PyRaise(Exc(ValueError, ("not in list",)))
        return self.search(name, t, a)

    def search(self, name, t, a):
        t = strip(t)
        if name == "count":
            return SInt(app("list.count", V, V, INTS)(t, strip(term(*a))))
        if any(x is None for x in a[1:]):
            raise PyRaise(Exc(TypeError, ("slice indices must be integers",)))
        args = index_arguments(t, *a)
        if not P().fork(app("list.index?", V, V, INTS, INTS, BOOLS)(t, *args), "found"):
            raise PyRaise(Exc(ValueError, ("not in list",)))
        return SInt(app("list.index", V, V, INTS, INTS, INTS)(t, *args))

    # ------------------------------------------------------------- operators
    def contains(self, x, c):
        if isinstance(c, (DictObj, KeysOf)):
            self.hashable(x)
            return SBool(zb((c if isinstance(c, DictObj) else c.content).has(self.key(x))))
        if isinstance(c, (frozenset, set, tuple, list, dict, types.MappingProxyType)):
            if isinstance(x, Sym):
                P().know(x.term)
                cs = [z3.simplify(x.term == P().vstr(s)) for s in c if isinstance(s, str)]
                if any(not isinstance(s, str) for s in c):
                    raise Unsupported("membership in constants")
                return SBool(z3.Or(*cs)) if cs else False
            if isinstance(x, TypeOf) and all(isinstance(y, type) for y in c):
                fs = [self.is_(x, y) for y in c]
                return SBool(z3.Or(*[zb(f) if isinstance(f, bool) else f.term for f in fs]))
            if not isinstance(x, PLAIN):
                raise Unsupported("membership in constants")
            return x in c
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("substring")
        if isinstance(c, Sym):
            t = c.term
            P().know(t)
            if P().fork(kind(t) == MAP, "mapping"):
                self.foreign(t)
                self.hashable(x)
                return SBool(HAS(t, self.key(x)))
            if P().fork(kind(t) == STR, "string"):
                if isinstance(x, str):
                    return SBool(P().strpred("contains", x, t))
                raise Unsupported("substring")
            if P().fork(kind(t) == SEQ, "sequence"):
                self.foreign(t)
                return SBool(CONTAINS(strip(t), strip(self.key(x))))
            raise Unsupported("membership in arbitrary data")
        if isinstance(c, Iter) and c.what == "keys":
            return self.contains(x, c.base)
        if isinstance(c, Obj):
            m, owner = self.ip.cls_lookup(c.cls, "__contains__")
            if m is MISSING:
                raise Unsupported("in")
            return self.ip.call(self.ip.bind(m, c, c.cls, owner), [x], {})
        if isinstance(c, ListObj):
            items = self.concrete_items(c)
            if items is not None:
                return any(self.truth(self.eq(x, y)) for y in items)
            t = self.as_term(c)
            if t is not None:
                return SBool(CONTAINS(strip(t), strip(self.key(x))))
        raise Unsupported(f"membership in {c!r}")

    def as_term(self, v):
        """A data term for the value, or None."""
        if isinstance(v, (Sym, Cell, str, bool, int)) or v is None:
            return term(v)
        if isinstance(v, SInt):
            return term(v)
        if isinstance(v, (DictObj, ListObj)):
            c = v.whole()
            if isinstance(c, (DataMap, CellMap, DataSeq, CellSeq)):
                return c.t
            return empty_term(c)
        return None

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (TypeOf, TypeOfClass)) or isinstance(b, (TypeOf, TypeOfClass)):
            return self.type_is(a, b)
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, (Sym, Cell)):
                P().know(term(x))
                f = kind(term(x)) == NONE
                P().assume(z3.Implies(f, term(x) == term(None)))
                return SBool(f)
            if y is None and isinstance(x, TermV):
                return SBool(x.term == none_of(x.term.sort()))
        if isinstance(a, Cell) and isinstance(b, Cell):
            if a.ident is not None and b.ident is not None:
                f = z3.And(isnode(a.view), isnode(b.view), a.ident == b.ident)
                return SBool(z3.Or(f, z3.And(z3.Not(isnode(a.view)), a.view == b.view, ISSAME(a.view, b.view))))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Cell):
                # user data may contain the very nodes of this tree
                f = ISSAME(x.term, y.view)
                P().assume(z3.Implies(f, z3.And(NORM(x.term) == y.view, ISSC(x.term) == isnode(y.view))))
                P().assume(z3.Implies(z3.And(f, z3.Not(isnode(y.view))), x.term == y.view))
                for g in (JSONOK, NODOT, STRKEY):
                    P().assume(z3.Implies(f, g(x.term) == g(y.view)))
                return SBool(f)
        if isinstance(a, Sym) and isinstance(b, Sym):
            f = ISSAME(a.term, b.term)
            P().assume(z3.Implies(f, a.term == b.term))
            return SBool(f)
        if isinstance(a, TermV) and isinstance(b, TermV):
            return SBool(a.term == b.term)
        simple = (bool, type(None), type, Obj, DictObj, ListObj, Lock, str, int, types.FunctionType)
        if isinstance(a, simple) and isinstance(b, simple):
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Sym, Cell)) and isinstance(y, Obj) and self.w.is_synced_class(y.cls):
                raise Unsupported("identity of an argument")
            if isinstance(x, (Sym, Cell, SInt, SBool, TermV, Opaque)) and isinstance(y, (Obj, DictObj, ListObj, type, Lock)):
                return False
            if isinstance(x, (SInt, Opaque, SBool, TypeOf, Exc, tuple, Blob)) and y is None:
                return False
            if isinstance(x, (bool, int, str)) and isinstance(y, (Sym, Cell)):
                return SBool(term(x) == term(y)) if isinstance(x, bool) else Unsupported.raise_("is")
        raise Unsupported(f"{a!r} is {b!r}")

    def type_is(self, a, b):
        if isinstance(a, (TypeOf, TypeOfClass)) and isinstance(b, (TypeOf, TypeOfClass)):
            x, y = a.value, b.value
            if x is y:
                # obj.__class__ is type(obj)
                if isinstance(a, TypeOfClass) != isinstance(b, TypeOfClass):
                    return SBool(z3.Not(PROXY(term(x))))
                return True
            if isinstance(a, TypeOfClass) or isinstance(b, TypeOfClass):
                raise Unsupported("__class__")
            tx, ty = term(x), term(y)
            f = sametype(tx, ty)
            # a node of the tree is a synced collection
            for c, o in ((x, ty), (y, tx)):
                if isinstance(c, Cell):
                    P().assume(z3.And(z3.Not(PROXY(c.view)), z3.Implies(f, z3.Not(PROXY(o)))))
                    P().assume(z3.Implies(z3.And(f, isnode(c.view)), ISSC(o)))
                    P().assume(z3.Implies(z3.Not(isnode(c.view)), z3.And(z3.Not(NPSCALAR(c.view)), kind(c.view) != NDARR)))
            return SBool(f)
        if isinstance(b, (TypeOf, TypeOfClass)):
            a, b = b, a
        t = term(a.value)
        if isinstance(a.value, Cell):
            raise Unsupported("type of a node")
        exact = app(f"exactly:{getattr(b, '__name__', b)}", V, BOOLS)(t)
        P().assume(z3.Implies(exact, self.isinstance_formula(t, b)))
        return SBool(exact)

    def eq(self, a, b):
        if isinstance(a, Obj):
            m, owner = self.ip.cls_lookup(a.cls, "__eq__")
            if I.is_function(m):
                return self.ip.call(Bound(m, a, owner), [b], {})
            return a is b
        if isinstance(b, Obj):
            return self.eq(b, a)
        if isinstance(a, TermV) and isinstance(b, TermV):
            return SBool(a.term == b.term) if a.term.sort() == b.term.sort() else False
        if isinstance(a, Blob) and isinstance(b, Blob):
            return SBool(a.term == b.term)
        if isinstance(a, Blob) and b is None or isinstance(b, Blob) and a is None:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TermV) and y is None:
                return SBool(x.term == none_of(x.term.sort()))
            if isinstance(x, Opaque) or isinstance(x, TermV):
                return SBool(z3.Bool(P().name("eq")))
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            x = a.term if isinstance(a, SInt) else a
            y = b.term if isinstance(b, SInt) else b
            return x == y if isinstance(x, int) and isinstance(y, int) else SBool(x == y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return SBool(z3.And(*[zb(r) if isinstance(r, bool) else r.term for r in rs]))
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        ta, tb = self.as_term(a), self.as_term(b)
        if ta is not None and tb is not None:
            if not isinstance(a, (Sym, Cell, SInt, DictObj, ListObj)) and not isinstance(b, (Sym, Cell, SInt, DictObj, ListObj)):
                return a == b
            return SBool(pyeq(ta, tb))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (tuple, type, frozenset, Iter)) and (y is None or isinstance(y, (str, int))):
                return False
        if isinstance(a, type) and isinstance(b, type):
            return a is b
        raise Unsupported(f"{a!r} == {b!r}")

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.negate(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.negate(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.negate(self.contains(a, b))
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        f = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[name]
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            x = a.term if isinstance(a, SInt) else a
            y = b.term if isinstance(b, SInt) else b
            r = f(x, y)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(a, Obj):
            m, owner = self.ip.cls_lookup(a.cls, f"__{name}__")
            if I.is_function(m):
                return self.ip.call(Bound(m, a, owner), [b], {})
        ta, tb = self.as_term(a), self.as_term(b)
        if ta is not None and tb is not None:
            ta, tb = strip(ta), strip(tb)
            if not P().fork(CMPOK(ta, tb), "comparable"):
                raise PyRaise(Exc(TypeError, ("not comparable",)))
            return SBool(app(f"cmp.{name}", V, V, BOOLS)(ta, tb))
        raise Unsupported("comparison")

    def negate(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, SBool):
            return SBool(z3.Not(v.term))
        return not self.truth(v)

    def binop(self, op, a, b):
        num = (SInt, int)
        if isinstance(a, num) and isinstance(b, num):
            x = a.term if isinstance(a, SInt) else a
            y = b.term if isinstance(b, SInt) else b
            if isinstance(op, ast.Add):
                r = x + y
            elif isinstance(op, ast.Sub):
                r = x - y
            elif isinstance(op, ast.Mult):
                r = x * y
            elif isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(y, int) and y > 0:
                div = isinstance(op, ast.FloorDiv)
                r = (x // y if div else x % y) if isinstance(x, int) else (x / y if div else x % y)
            elif isinstance(op, ast.Div):
                return FloatV("div", x, y)
            else:
                raise Unsupported("arithmetic")
            return r if isinstance(r, int) else SInt(z3.simplify(r))
        if isinstance(a, FloatV) or isinstance(b, FloatV):
            return FloatV(type(op).__name__, *[x.term if isinstance(x, (FloatV, SInt)) else x for x in (a, b)])
        if isinstance(op, ast.Add):
            if isinstance(a, ListObj) and isinstance(b, ListObj):
                return ListObj(ConcatSeq(a.whole(), b.whole()))
            if isinstance(a, (str, Opaque, Sym)) and isinstance(b, (str, Opaque, Sym)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return Opaque("text", a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.BitOr):
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return a | b
            if isinstance(a, DictObj):
                return DictObj(MergeMap(a.whole(), self.mapping_content(b)))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Opaque("text", a, b)
        raise Unsupported(f"operator {type(op).__name__}")

    # ------------------------------------------------------- isinstance etc.
    def isinstance_formula(self, t, T):
        """Formula: the data term is an instance of T."""
        f = self.instance_formula(t, T)
        for a, b in P().memo.get("same", ()):
            if t.eq(a) or t.eq(b):
                alike = z3.And(SAMETYPE(a, b), z3.Not(PROXY(a)), z3.Not(PROXY(b)))
                P().assume(z3.Implies(alike, self.instance_formula(a, T) == self.instance_formula(b, T)))
        return f

    def instance_formula(self, t, T):
        P().know(t)
        k = kind(t)
        if isinstance(T, tuple):
            return z3.Or(*[zb(self.instance_formula(t, x)) for x in T])
        if T is object:
            return z3.BoolVal(True)
        if T in (abc.Mapping, abc.MutableMapping):
            return k == MAP if T is abc.Mapping else z3.And(k == MAP, app("mutable", V, BOOLS)(t))
        if T is abc.Sequence:
            return z3.Or(k == SEQ, k == STR)
        if T is abc.MutableSequence:
            return z3.And(k == SEQ, app("mutable", V, BOOLS)(t))
        if T is abc.Collection:
            return COLLECTION(t)
        if T is abc.Iterable:
            return app("iterable", V, BOOLS)(t)
        if T is str:
            return k == STR
        if T is int:
            return z3.Or(k == INT, k == BOOL)
        if T is bool:
            return k == BOOL
        if T is float:
            return k == FLOAT
        if T is type(None):
            return k == NONE
        if T is dict:
            P().assume(z3.Implies(ISDICT(t), z3.And(k == MAP, z3.Not(ISSC(t)))))
            return ISDICT(t)
        if T is list:
            P().assume(z3.Implies(ISLIST(t), z3.And(k == SEQ, z3.Not(ISSC(t)))))
            return ISLIST(t)
        if T in (tuple, bytes, bytearray, range, memoryview):
            f = app(f"is:{T.__name__}", V, BOOLS)(t)
            P().assume(z3.Implies(f, z3.And(k == SEQ, z3.Not(ISSC(t)), z3.Not(ISLIST(t)))))
            return f
        if T is complex:
            f = ISCOMPLEX(t)
            P().assume(z3.Implies(f, z3.And(k == OTHER)))
            return f
        if numpy is not None:
            if T is numpy.ndarray:
                return k == NDARR
            if T in (numpy.number, numpy.bool_):
                f = app(f"is:{T.__name__}", V, BOOLS)(t)
                n, b = app("is:number", V, BOOLS)(t), app(f"is:{numpy.bool_.__name__}", V, BOOLS)(t)
                P().assume(NPSCALAR(t) == z3.Or(n, b))
                return f
            if T is numpy.generic:
                f = app("is:generic", V, BOOLS)(t)
                P().assume(z3.Implies(NPSCALAR(t), f))
                P().assume(z3.Implies(f, z3.Or(k == OTHER, k == FLOAT, k == STR, k == SEQ)))
                return f
        if isinstance(T, type) and self.w.is_synced_class(T):
            P().know(t)
            if T is self.w.SyncedCollection:
                return ISSC(t)
            f = app(f"is:{T.__name__}", V, BOOLS)(t)
            P().assume(z3.Implies(f, ISSC(t)))
            if issubclass(T, abc.Mapping):
                P().assume(z3.Implies(f, k == MAP))
            if issubclass(T, abc.Sequence):
                P().assume(z3.Implies(f, k == SEQ))
            return f
        if isinstance(T, type):
            return app(f"is:{T.__module__}.{T.__name__}", V, BOOLS)(t)
        raise Unsupported(f"isinstance {T!r}")

    def isinstance(self, v, T):
        if isinstance(T, tuple):
            rs = [self.isinstance(v, x) for x in T]
            if any(r is True for r in rs):
                return True
            fs = [r.term for r in rs if isinstance(r, SBool)]
            return SBool(z3.Or(*fs)) if fs else False
        if isinstance(T, TypeOf):
            raise Unsupported("isinstance of a symbolic type")
        if isinstance(v, Obj):
            return issubclass(v.cls, T)
        if isinstance(v, Exc):
            return issubclass(v.cls, T)
        if isinstance(v, DictObj):
            return issubclass(dict, T)
        if isinstance(v, (ListObj, KeysOf)):
            return issubclass(list, T)
        if isinstance(v, SInt):
            return issubclass(int, T)
        if isinstance(v, SBool):
            return issubclass(bool, T)
        if isinstance(v, SSlice):
            return issubclass(slice, T)
        if isinstance(v, Sym):
            f = z3.simplify(self.isinstance_formula(v.term, T))
            return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)
        if isinstance(v, Cell):
            return self.w.cell_isinstance(v, T)
        if isinstance(v, Opaque):
            if v.what == "text":
                return issubclass(str, T)
            raise Unsupported("isinstance of an opaque value")
        if isinstance(v, TermV):
            raise Unsupported("isinstance of a term")
        return isinstance(v, T)

    def issubclass(self, v, T):
        if isinstance(v, TypeOf):
            if T == ():
                return False
            # depends on the type only
            t = term(v.value)
            f = self.isinstance_formula(t, T)
            g = app(f"typeis:{T}", V, BOOLS)(t)
            P().assume(z3.Implies(z3.Not(PROXY(t)), g == f))
            return SBool(g)
        if isinstance(v, type):
            return issubclass(v, T)
        raise Unsupported("issubclass")

    # -------------------------------------------------------------- builtins
    def len(self, v):
        if isinstance(v, DictObj):
            ks = v.content.concrete_keys()
            if ks is not None:
                v.see("r")
                return len(ks)
            return SInt(z3.simplify(v.whole().length()))
        if isinstance(v, ListObj):
            n = z3.simplify(v.length())
            return n.as_long() if z3.is_int_value(n) else SInt(n)
        if isinstance(v, Sym):
            t = v.term
            P().know(t)
            if P().fork(kind(t) == MAP, "mapping"):
                self.foreign(t)
                return SInt(MLEN(t))
            if P().fork(z3.Or(kind(t) == SEQ, z3.And(kind(t) == NDARR, NDIM(t) > 0)), "sequence"):
                self.foreign(t)
                P().assume(LEN(t) >= 0)
                return SInt(LEN(t))
            raise Unsupported("len of arbitrary data")
        if isinstance(v, (str, tuple, list, dict, frozenset)):
            return len(v)
        if isinstance(v, Blob):
            P().assume(BLEN(v.term) >= 0)
            return SInt(BLEN(v.term))
        if isinstance(v, Obj):
            m, owner = self.ip.cls_lookup(v.cls, "__len__")
            return self.ip.call(self.ip.bind(m, v, v.cls, owner), [], {})
        if isinstance(v, Iter) and v.what in ("keys", "values", "items"):
            return self.len(v.base)
        raise Unsupported(f"len of {v!r}")

    def construct(self, cls, args, kwargs):
        """Built-in types as constructors."""
        ip = self.ip
        if cls is bool:
            return self.truth(args[0]) if args else False
        if cls is type:
            if len(args) != 1:
                raise Unsupported("type()")
            return self.type_of(args[0])
        if cls is list:
            return self.to_list(args[0]) if args else ListObj()
        if cls is tuple:
            if not args:
                return ()
            items = self.concrete_items(args[0])
            if items is None:
                raise Unsupported("tuple()")
            return tuple(items)
        if cls is dict:
            d = DictObj()
            if args:
                d.content = self.to_dict(args[0])
            for k, v in kwargs.items():
                d.content = PutMap(d.content, P().vstr(k), v)
            return d
        if cls is str:
            return Opaque("text", *args)
        if cls is int:
            if isinstance(args[0], (SInt, int)):
                return args[0]
            if isinstance(args[0], FloatV):
                return SInt(app("int()", FLOATS, INTS)(args[0].term))
            raise Unsupported("int()")
        if cls in (set, frozenset):
            if not args:
                return frozenset()
            if isinstance(args[0], (DictObj, Sym, Iter)):
                d = self.domain(args[0])
                if getattr(d, "keyed", False):
                    return KeysOf(d.content)
            raise Unsupported("set()")
        if cls is range:
            xs = [x.term if isinstance(x, SInt) else x for x in args]
            if all(isinstance(x, int) for x in xs):
                return range(*xs)
            if len(xs) > 2:
                raise Unsupported("range with a step")
            lo, hi = (z3.IntVal(0), xs[0]) if len(xs) == 1 else xs
            return Iter("range", tuple(z3.IntVal(x) if isinstance(x, int) else x for x in (lo, hi)))
        if cls is reversed:
            return self.reversed(args[0])
        if cls is enumerate:
            return Iter("enumerate", args[0])
        if cls is zip:
            return Iter("zip", tuple(args))
        if cls is map:
            f = args[0]
            items = self.concrete_items(args[1])
            if items is not None:
                return ListObj(LitSeq([ip.call(f, [x], {}) for x in items]))
            raise Unsupported("map")
        if cls is filter:
            raise Unsupported("filter")
        if cls is slice:
            return slice(*args)
        if cls is super:
            if len(args) == 2:
                return Super(args[0], args[1])
        if cls is object:
            return Obj(object)
        if cls is property or cls is classmethod or cls is staticmethod:
            raise Unsupported("descriptor")
        return MISSING

    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (Sym, Cell)):
            return TypeOf(v)
        if isinstance(v, DictObj):
            return dict
        if isinstance(v, ListObj):
            return list
        if isinstance(v, Exc):
            return v.cls
        if isinstance(v, SInt):
            return int
        if isinstance(v, (Opaque, TermV, SBool)):
            return Opaque("type")
        return type(v)

    def to_list(self, v):
        if isinstance(v, (DictObj, KeysOf)):
            items = self.concrete_items(v)
            if items is not None:
                return ListObj(LitSeq(items))
            return KeysOf(v.whole() if isinstance(v, DictObj) else v.content)
        if isinstance(v, Iter) and v.what == "keys":
            return self.to_list(v.base)
        items = self.concrete_items(v)
        if items is not None:
            return ListObj(LitSeq(items))
        if isinstance(v, ListObj):
            return ListObj(v.whole())
        if isinstance(v, Iter) and v.what in ("iter", "reversed"):
            c = self.seq_content(v)
            if c is not None:
                return ListObj(c)
        if isinstance(v, Iter):
            if v.what in ("items", "values"):
                return Iter("list of " + v.what, v.base)
            d = self.domain(v)
            return ListObj(d.sequence(d.elem))
        if isinstance(v, Sym):
            t = v.term
            P().know(t)
            k = kind(t)
            if P().entails(k == MAP):
                return KeysOf(self.mapping_content(v))
            P().assume(z3.Implies(z3.Or(k == MAP, k == SEQ, k == STR), ITERABLE(t)))
            P().assume(z3.Implies(z3.Or(k == NONE, k == BOOL, k == INT, k == FLOAT), z3.Not(ITERABLE(t))))
            if not P().fork(ITERABLE(t), "iterable"):
                raise PyRaise(Exc(TypeError, ("not iterable",)))
            self.foreign(t)
            r = LISTOF(t)
            P().know(r)
            P().assume(z3.And(kind(r) == SEQ, z3.Not(ISSC(r)), ISLIST(r)))
            return Sym(r, "shallow")
        raise Unsupported(f"list of {v!r}")

    def to_dict(self, v):
        if isinstance(v, Sym):
            t = v.term
            P().know(t)
            if P().fork(kind(t) == MAP, "mapping"):
                self.foreign(t)
                return DataMap(t, v.owner)
            if not P().fork(PAIRS(t), "pairs"):
                raise PyRaise(Exc(ValueError if P().maybe("value error") else TypeError, ("not pairs",)))
            self.foreign(t)
            r = DICTOF(t)
            P().know(r)
            P().assume(z3.And(kind(r) == MAP, z3.Not(ISSC(r)), ISDICT(r)))
            return DataMap(r, "shallow")
        if isinstance(v, tuple) and not v:
            return EmptyMap()
        return self.mapping_content(v)

    def reversed(self, v):
        if isinstance(v, (ListObj, Sym)):
            return Iter("reversed", v)
        if isinstance(v, Obj):
            m, owner = self.ip.cls_lookup(v.cls, "__reversed__")
            return self.ip.call(self.ip.bind(m, v, v.cls, owner), [], {})
        raise Unsupported("reversed")

    def iter(self, v):
        if isinstance(v, Obj):
            m, owner = self.ip.cls_lookup(v.cls, "__iter__")
            return self.ip.call(self.ip.bind(m, v, v.cls, owner), [], {})
        return v if isinstance(v, Iter) else Iter("iter", v)

    def slot(self, name, obj, args, kw):
        """Methods of object and of other built-in bases."""
        if name == "__init__":
            return None
        if name == "__setattr__":
            return self.ip.raw_setattr(obj, *args)
        if name == "__delattr__":
            return self.ip.raw_delattr(obj, *args)
        if name == "__init_subclass__":
            return None
        if name == "__eq__":
            return args[0] is obj
        if name in ("__repr__", "__str__", "__format__"):
            return Opaque("text", obj)
        if name == "__getattribute__":
            return self.ip.getattr(obj, *args)
        raise Unsupported(f"slot {name}")

    def external(self, f, args, kw):
        name = getattr(f, "__name__", None) or type(f).__name__
        if isinstance(f, types.BuiltinFunctionType) and getattr(f, "__module__", None) == "builtins":
            if name == "len":
                return self.len(*args)
            if name == "isinstance":
                return self.isinstance(*args)
            if name == "issubclass":
                return self.issubclass(*args)
            if name == "iter":
                return self.iter(*args)
            if name == "id":
                return IdOf(args[0])
            if name in ("min", "max"):
                xs = args if len(args) > 1 else self.concrete_items(args[0])
                if xs and all(isinstance(x, (SInt, int)) for x in xs):
                    r = xs[0]
                    for x in xs[1:]:
                        lt = self.compare(ast.Lt() if name == "min" else ast.Gt(), x, r)
                        if isinstance(lt, bool):
                            r = x if lt else r
                        else:
                            tr = r.term if isinstance(r, SInt) else r
                            tx = x.term if isinstance(x, SInt) else x
                            r = SInt(z3.If(lt.term, tx, tr))
                    return r
                raise Unsupported(name)
            if name == "round" and isinstance(args[0], FloatV):
                if len(args) == 1:
                    return SInt(app("round()", FLOATS, INTS)(args[0].term))
                return FloatV("round", args[0].term, args[1])
            if name == "repr":
                return Opaque("repr", args[0])
            if name == "callable":
                return True
            if name == "hasattr":
                try:
                    self.ip.getattr(args[0], args[1])
                    return True
                except PyRaise as e:
                    if issubclass(e.exc.cls, AttributeError):
                        return False
                    raise
            if name == "getattr":
                try:
                    return self.ip.getattr(args[0], args[1])
                except PyRaise as e:
                    if len(args) > 2 and issubclass(e.exc.cls, AttributeError):
                        return args[2]
                    raise
            if name == "setattr":
                return self.ip.setattr(*args)
            if name == "delattr":
                return self.ip.delattr(*args)
            if name in ("all", "any"):
                items = self.concrete_items(args[0])
                if items is None:
                    raise Unsupported(name)
                for x in items:
                    if self.truth(x) == (name == "any"):
                        return name == "any"
                return name == "all"
            if name == "sorted":
                if isinstance(args[0], (DictObj, KeysOf)):
                    return self.to_list(args[0])
                raise Unsupported("sorted")
            if name in ("print",):
                return None
        r = self.w.external(self.ip, f, name, args, kw)
        if r is not MISSING:
            return r
        raise Unsupported(f"call of {name}")


def empty_term(c):
    """The term of an empty container, or None if it is not known to be empty."""
    if isinstance(c, EmptyMap):
        t, K = z3.Const("emptydict", V), MAP
    elif isinstance(c, LitSeq) and not c.items:
        t, K = z3.Const("emptylist", V), SEQ
    else:
        return None
    P().know(t)
    P().assume(z3.And(kind(t) == K, MLEN(t) == 0, LEN(t) == 0, DETACHED(t), NORM(t) == t, JSONOK(t), NODOT(t), z3.Not(ISSC(t))))
    return t


class TypeOfClass:
    """obj.__class__ of data"""

    def __init__(self, value):
        self.value = value


class SSlice:
    """An arbitrary slice."""

    def __init__(self, name):
        self.name = name

    def get(self, c):
        n = c.length()
        ln, at = app(f"{self.name}.len", INTS, INTS), app(f"{self.name}.at", INTS, INTS, INTS)
        P().assume(z3.And(ln(n) >= 0, ln(n) <= n))

        def get(i):
            j = at(n, i)
            P().assume(z3.Implies(z3.And(0 <= i, i < ln(n)), z3.And(0 <= j, j < n)))
            return c.at(j)

        return FunSeq(lambda: ln(n), get)

    def set(self, c, new):
        n, m = c.length(), new.length()
        if not P().fork(self.fits(n, m), "as many elements as the slice has"):
            raise PyRaise(Exc(ValueError))
        return self.replaced(c, new)

    def fits(self, n, m):
        return app(f"{self.name}.fits", INTS, INTS, BOOLS)(n, m)

    def replaced(self, c, new):
        """Elements that are kept and new ones; which ones depends on the lengths."""
        n, m = c.length(), new.length()
        fun = {x: app(f"{self.name}.{x}", INTS, INTS, INTS, INTS) for x in ("kept", "new")}
        ln = app(f"{self.name}.setlen", INTS, INTS, INTS)(n, m)
        P().assume(ln >= 0)

        def get(i):
            inside = z3.And(0 <= i, i < ln)
            if P().fork(app(f"{self.name}.isnew", INTS, INTS, INTS, BOOLS)(n, m, i), "new element"):
                j = fun["new"](n, m, i)
                P().assume(z3.Implies(inside, z3.And(0 <= j, j < m)))
                return new.at(j)
            j = fun["kept"](n, m, i)
            P().assume(z3.Implies(inside, z3.And(0 <= j, j < n)))
            return c.at(j)

        return FunSeq(lambda: ln, get)

    def delete(self, c):
        n = c.length()
        ln, at = app(f"{self.name}.restlen", INTS, INTS), app(f"{self.name}.rest", INTS, INTS, INTS)
        P().assume(z3.And(ln(n) >= 0, ln(n) <= n))

        def get(i):
            j = at(n, i)
            P().assume(z3.Implies(z3.And(0 <= i, i < ln(n)), z3.And(0 <= j, j < n)))
            return c.at(j)

        return FunSeq(lambda: ln(n), get)


class TermV:
    """A value with a term of a sort other than V."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"TermV({self.term})"


FLOATS = z3.DeclareSort("Float")


class FloatV(TermV):
    """A number computed with floating point: a function of the operands, which
    is not injective."""

    def __init__(self, op, *args):
        ts = [z3.RealVal(a) if isinstance(a, (int, float)) else a for a in args]
        super().__init__(app(f"float.{op}", *[t.sort() for t in ts], FLOATS)(*ts))


class IdOf(TermV):
    def __init__(self, obj):
        self.obj = obj
        super().__init__(ident(obj))


_ids = {}


def ident(v):
    """A key term for an object or other term."""
    p = P()
    if isinstance(v, IdOf):
        v = v.obj
    if isinstance(v, TermV):
        return app(f"key:{v.term.sort()}", v.term.sort(), V)(v.term)
    ids = p.memo.setdefault("ids", {})
    if id(v) not in ids:
        t = z3.Const(f"id!{len(ids)}", V)
        p.solver.add(kind(t) == INT)
        for u, _ in ids.values():
            p.solver.add(t != u)
        ids[id(v)] = (t, v)
    return ids[id(v)][0]


def none_of(sort):
    return z3.Const(f"none:{sort}", sort)


from core import ABSENT  # noqa: E402
