"""What every public operation has to do, in terms of the built-in types.

Each operation has a function that makes arbitrary arguments and a function that
computes the expected outcome from the content of the resource.  None of this
looks at the implementation."""
import ast
import collections.abc as abc
import functools
import inspect
import textwrap

import z3

from core import *  # noqa: F403
from core import BOOLS, INTS
from natives import CMPOK, CONTAINS, DICTOF, HASHABLE, ITERABLE, LISTOF, PAIRS, ISLIST, ISDICT, SSlice, empty_term, index_arguments, pyeq, strip
from world import Predicate, valid
from synced_collections.data_types.attr_dict import AttrDict

REJECT = (TypeError, ValueError)


class Raises(Exception):
    def __init__(self, *classes, why=""):
        self.classes, self.why = classes, why


class NoneV:
    pass


class Ok:
    """Expected result and new content (None: unchanged)."""

    def __init__(self, result=None, content=None):
        self.result, self.content = result, content


class Val:
    """A result that equals this term; node results are live unless plain."""

    def __init__(self, t, plain=False):
        self.t, self.plain = t, plain


def N(v):
    """The stored form of an argument, as a content value."""
    t = NORM(term(v))
    P().know(t)
    return Cell(t)


def fork(c, label=""):
    return P().fork(c, "spec: " + label)


def need_valid(s, v, key=None):
    if key is not None:
        P().know(key)
        ok = kind(key) == STR
        if s.family == "attr":
            ok = z3.And(ok, z3.Not(P().strpred("contains", ".", key)))
        if not fork(ok, "valid key"):
            raise Raises(*REJECT, why="invalid key")
    if v is not None and not fork(valid(term(v), s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")


def hashable(k):
    P().assume(z3.Implies(kind(k) == STR, HASHABLE(k)))
    if not fork(HASHABLE(k), "hashable"):
        raise Raises(TypeError)


# ------------------------------------------------------------------ arguments
def key(s):
    return Sym(z3.Const("key", V))


def val(s):
    return Sym(z3.Const("value", V))


def idx(s):
    return SInt(z3.Int("index"))


def idx2(s):
    return SInt(z3.Int("stop"))


def mapping(s):
    return Sym(z3.Const("other", V))


def pos(i, n):
    """Position of a possibly negative index, or IndexError."""
    i = i.term
    if not fork(z3.And(-n <= i, i < n), "index in range"):
        raise Raises(IndexError)
    return z3.If(i < 0, i + n, i)


# ---------------------------------------------------------------- dict: reads
def d_getitem(s, C, k):
    hashable(k.term)
    if not fork(zb(C.has(k.term)), "present"):
        raise Raises(KeyError)
    return Ok(Val(term(C.get(k.term))))


def d_get(s, C, k, d=None):
    hashable(k.term)
    if not fork(zb(C.has(k.term)), "present"):
        return Ok(d)
    return Ok(Val(term(C.get(k.term))))


def d_contains(s, C, k):
    hashable(k.term)
    return Ok(SBool(zb(C.has(k.term))))


def length(s, C):
    return Ok(SInt(C.length()))


class Same:
    """A container equal to the content, made of plain data."""

    def __init__(self, what="all"):
        self.what = what


def d_call(s, C):
    return Ok(Same())


def l_call(s, C):
    return Ok(Same())


def view(what):
    return lambda s, C: Ok(Same(what))


def data_term(s, C):
    """The content as one term, if it is one."""
    return C.t if isinstance(C, (CellMap, CellSeq)) else empty_term(C)


class PyEq:
    def __init__(self, other, neg=False):
        self.other, self.neg = other, neg


def eq(s, C, other):
    t = data_term(s, C)
    if t is None:
        return Ok(Unspecified())
    f = pyeq(t, term(other))
    return Ok(SBool(f))


def ne(s, C, other):
    r = eq(s, C, other).result
    return Ok(SBool(z3.Not(r.term)) if isinstance(r, SBool) else r)


class Unspecified:
    """The bounded checks look at this result."""


# --------------------------------------------------------------- dict: writes
def d_setitem(s, C, k, v):
    need_valid(s, v, k.term)
    return Ok(None, PutMap(C, k.term, N(v)))


def d_delitem(s, C, k):
    hashable(k.term)
    if not fork(zb(C.has(k.term)), "present"):
        raise Raises(KeyError)
    return Ok(None, DelMap(C, k.term))


def d_pop(s, C, k, d=None):
    hashable(k.term)
    if not fork(zb(C.has(k.term)), "present"):
        return Ok(d, C)
    return Ok(Val(term(C.get(k.term))), DelMap(C, k.term))


class AnyItem:
    """Some item of the content, which is removed."""


def d_popitem(s, C):
    if not fork(C.length() > 0, "nonempty"):
        raise Raises(KeyError)
    return Ok(AnyItem())


def d_clear(s, C):
    return Ok(None, EmptyMap())


def to_map(v):
    """dict(v) for the argument of update."""
    t = v.term
    P().know(t)
    if fork(kind(t) == MAP, "mapping"):
        return t
    if not fork(PAIRS(t), "pairs"):
        raise Raises(TypeError, ValueError)
    return DICTOF(t)


def d_update(s, C, other):
    t = to_map(other)
    P().know(t)
    if not fork(valid(t, s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")
    return Ok(None, MergeMap(C, Normal(DataMap(t))))


def d_update_kw(s, C, other, a):
    t = to_map(other)
    P().know(t)
    m = PutMap(DataMap(t), P().vstr("a"), a)
    if not fork(valid(a.term, s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")
    if not fork(valid(t, s.family), "valid mapping"):
        # the invalid item may be the one that is overridden
        return Either(Raises(*REJECT, why="invalid value"), Ok(None, MergeMap(C, Normal(m))))
    return Ok(None, MergeMap(C, Normal(m)))


def d_update_only_kw(s, C, a):
    need_valid(s, a)
    return Ok(None, PutMap(C, P().vstr("a"), N(a)))


class Either:
    def __init__(self, *options):
        self.options = options


class Normal(MapC):
    def __init__(self, base):
        super().__init__()
        self.base = base

    def _has(self, k):
        return self.base.has(k)

    def _get(self, k):
        return N(self.base.get(k))

    def length(self):
        return self.base.length()


class NormalS(SeqC):
    def __init__(self, base):
        super().__init__()
        self.base = base

    def length(self):
        return self.base.length()

    def _at(self, i):
        return N(self.base.at(i))


def d_setdefault(s, C, k, v):
    hashable(k.term)
    if fork(zb(C.has(k.term)), "present"):
        return Ok(Val(term(C.get(k.term))), C)
    need_valid(s, v, k.term)
    n = N(v)
    return Ok(Val(n.view), PutMap(C, k.term, n))


def d_reset(s, C, v):
    t = v.term
    P().know(t)
    if not fork(kind(t) == MAP, "mapping"):
        raise Raises(*REJECT)
    if not fork(valid(t, s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")
    return Ok(None, Normal(DataMap(t)))


# ---------------------------------------------------------------- list: reads
def l_getitem(s, C, i):
    i = pos(i, C.length())
    return Ok(Val(term(C.at(i))))


class SliceOf:
    def __init__(self, sl):
        self.sl = sl


def l_getslice(s, C, sl):
    return Ok(SliceOf(sl))


def l_contains(s, C, v):
    t = data_term(s, C)
    if isinstance(C, LitSeq):
        return Ok(False)
    return Ok(SBool(CONTAINS(t, strip(v.term))))


def l_count(s, C, v):
    t = data_term(s, C)
    if isinstance(C, LitSeq):
        return Ok(SInt(z3.IntVal(0)))
    return Ok(SInt(app("list.count", V, V, INTS)(t, strip(v.term))))


def l_index(s, C, v, start=0, stop=None):
    t = data_term(s, C)
    if isinstance(C, LitSeq):
        raise Raises(ValueError)
    args = index_arguments(t, v, start, stop)
    if not fork(app("list.index?", V, V, INTS, INTS, BOOLS)(t, *args), "found"):
        raise Raises(ValueError)
    return Ok(SInt(app("list.index", V, V, INTS, INTS, INTS)(t, *args)))


def l_cmp(name):
    def f(s, C, other):
        t, o = data_term(s, C), strip(other.term)
        if t is None:
            return Either(Raises(TypeError), Ok(Unspecified()))
        if not fork(CMPOK(t, o), "comparable"):
            raise Raises(TypeError)
        return Ok(SBool(app(f"cmp.{name}", V, V, BOOLS)(t, o)))

    return f


# --------------------------------------------------------------- list: writes
def l_setitem(s, C, i, v):
    bad = not fork(valid(v.term, s.family), "valid value")
    n = C.length()
    out = not fork(z3.And(-n <= i.term, i.term < n), "index in range")
    if bad and out:
        raise Raises(IndexError, *REJECT)
    if bad:
        raise Raises(*REJECT, why="invalid value")
    if out:
        raise Raises(IndexError)
    return Ok(None, SetSeq(C, pos(i, n), N(v)))


def l_delitem(s, C, i):
    return Ok(None, DelSeq(C, pos(i, C.length())))


def l_delslice(s, C, sl):
    return Ok(None, sl.delete(C))


def l_insert(s, C, i, v):
    need_valid(s, v)
    n = C.length()
    i = i.term
    i = z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))
    return Ok(None, InsertSeq(C, i, N(v)))


def l_append(s, C, v):
    need_valid(s, v)
    return Ok(None, InsertSeq(C, C.length(), N(v)))


def l_extend(s, C, v):
    t = v.term
    P().know(t)
    if not fork(ITERABLE(t), "iterable"):
        raise Raises(TypeError)
    r = LISTOF(t)
    P().know(r)
    if not fork(valid(r, s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")
    return Ok(None, ConcatSeq(C, NormalS(DataSeq(r))))


def l_setslice(s, C, sl, v):
    t = v.term
    P().know(t)
    if not fork(ITERABLE(t), "iterable"):
        raise Raises(TypeError)
    r = LISTOF(t)
    P().know(r)
    bad = not fork(valid(r, s.family), "valid value")
    new = NormalS(DataSeq(r))
    if bad:
        raise Raises(*REJECT, why="invalid value")
    if not fork(sl.fits(C.length(), new.length()), "as many elements as the slice has"):
        raise Raises(ValueError)
    return Ok(None, sl.replaced(C, new))


class Self:
    """The receiver itself."""


def l_iadd(s, C, v):
    r = l_extend(s, C, v)
    return Ok(Self(), r.content)


def l_remove(s, C, v):
    t = data_term(s, C)
    bad = not fork(valid(v.term, s.family), "valid value")
    if isinstance(C, LitSeq):
        raise Raises(*([ValueError, TypeError] if bad else [ValueError]))
    n = strip(NORM(DET(v.term)))
    P().know(n)
    i = app("find", V, V, INTS)(t, n)
    if bad:
        # such a value may still be equal to an element
        return Either(Raises(ValueError, TypeError), Ok(None, DelSeq(C, i)))
    if not fork(i >= 0, "found"):
        raise Raises(ValueError)
    return Ok(None, DelSeq(C, i))


def l_pop(s, C, i):
    i = pos(i, C.length())
    return Ok(Val(term(C.at(i))), DelSeq(C, i))


def l_pop_last(s, C):
    n = C.length()
    if not fork(n > 0, "nonempty"):
        raise Raises(IndexError)
    return Ok(Val(term(C.at(n - 1))), DelSeq(C, n - 1))


def l_reverse(s, C):
    return Ok(None, RevSeq(C))


def l_clear(s, C):
    return Ok(None, LitSeq([]))


def l_reset(s, C, v):
    t = v.term
    P().know(t)
    if not fork(kind(NORM(t)) == SEQ, "sequence"):
        raise Raises(*REJECT)
    if not fork(valid(t, s.family), "valid value"):
        raise Raises(*REJECT, why="invalid value")
    return Ok(None, NormalS(DataSeq(t)))


# ------------------------------------------------------- attributes as items
def own_names(cls):
    """Names that address the object: declared, assigned by a method, settable properties."""
    out = set(cls._PROTECTED_KEYS)
    for c in cls.__mro__:
        for n, x in vars(c).items():
            if isinstance(x, property) and x.fset is not None:
                out.add(n)
            if c.__module__.startswith("synced_collections."):
                for f in [x.fget, x.fset, x.fdel] if isinstance(x, property) else [x]:
                    if inspect.isfunction(f):
                        out |= assigned(f)
    return out


@functools.lru_cache(maxsize=None)
def assigned(f):
    """Names of the attributes that a function assigns to its first argument."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    except (OSError, TypeError, SyntaxError):
        return frozenset()
    code = f.__code__
    if not code.co_argcount:
        return frozenset()
    return frozenset(
        x.attr for x in ast.walk(tree)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
        and isinstance(x.value, ast.Name) and x.value.id == code.co_varnames[0]
    )


def protected(s, k):
    ks = [k.term == P().vstr(n) for n in sorted(own_names(s.me.cls))]
    return z3.Or(P().strpred("startswith", "__", k.term), *ks)


def attrname(s):
    """A string that is not the name of a class attribute, unless protected."""
    p, k = P(), Sym(z3.Const("name", V))
    p.know(k.term)
    p.assume(z3.And(kind(k.term) == STR, HASHABLE(k.term)))
    for n in dir(s.me.cls):
        if n not in own_names(s.me.cls) and not n.startswith("__"):
            p.assume(k.term != p.vstr(n))
    return k


def itemname(s):
    """The name of an attribute that the object and its class do not have."""
    k = attrname(s)
    for n in sorted(own_names(s.me.cls)):
        P().assume(k.term != P().vstr(n))
    return k


def as_attribute(f, s, C, *a):
    try:
        return f(s, C, *a)
    except Raises as r:
        raise Raises(*[AttributeError if c is KeyError else c for c in r.classes], why=r.why) from None


def a_get(s, C, k):
    if fork(P().strpred("startswith", "__", k.term), "dunder"):
        raise Raises(AttributeError)
    return as_attribute(d_getitem, s, C, k)


def a_set(s, C, k, v):
    if fork(protected(s, k), "protected"):
        P().prove("protected names address the object", s.named == [("set", s.me, k, v)], {"C18"})
        return Ok(None, C)
    P().prove("other names address the items", not s.named, {"C18"})
    return d_setitem(s, C, k, v)


def a_del(s, C, k):
    if fork(protected(s, k), "protected"):
        P().prove("protected names address the object", s.named == [("delete", s.me, k)], {"C18"})
        return Ok(None, C)
    P().prove("other names address the items", not s.named, {"C18"})
    return as_attribute(d_delitem, s, C, k)


class Op:
    def __init__(self, name, method, args, spec, write=False, stores=False, kw=(), after=None):
        self.name, self.method, self.args, self.spec = name, method, args, spec
        self.write, self.stores, self.kw = write, stores, kw


def named(f, name):
    return f


DICT_OPS = [
    Op("getitem", "__getitem__", [key], d_getitem),
    Op("get", "get", [key], d_get),
    Op("get default", "get", [key, val], d_get),
    Op("contains", "__contains__", [key], d_contains),
    Op("len", "__len__", [], length),
    Op("iter", "__iter__", [], view("iter")),
    Op("call", "__call__", [], d_call),
    Op("repr", "__repr__", [], view("repr")),
    Op("str", "__str__", [], view("str")),
    Op("keys", "keys", [], view("keys")),
    Op("values", "values", [], view("values")),
    Op("items", "items", [], view("items")),
    Op("eq", "__eq__", [val], eq),
    Op("setitem", "__setitem__", [key, val], d_setitem, True, True),
    Op("delitem", "__delitem__", [key], d_delitem, True),
    Op("pop", "pop", [key], d_pop, True),
    Op("pop default", "pop", [key, val], d_pop, True),
    Op("popitem", "popitem", [], d_popitem, True),
    Op("clear", "clear", [], d_clear, True),
    Op("update", "update", [mapping], d_update, True, True),
    Op("update kwargs", "update", [mapping, val], d_update_kw, True, True, kw=("a",)),
    Op("update only kwargs", "update", [val], d_update_only_kw, True, True, kw=("a",)),
    Op("setdefault", "setdefault", [key, val], d_setdefault, True, True),
    Op("reset", "reset", [mapping], d_reset, True, True),
]

ATTR_OPS = [
    Op("getattr", "__getattr__", [itemname], a_get),
    Op("setattr", "__setattr__", [attrname, val], a_set, True, True),
    Op("delattr", "__delattr__", [attrname], a_del, True),
]


def operations(cls):
    """The public operations of a class."""
    if not issubclass(cls, abc.Mapping):
        return LIST_OPS
    return DICT_OPS + (ATTR_OPS if issubclass(cls, AttrDict) else [])


def an_slice(s):
    return SSlice("slice")


LIST_OPS = [
    Op("getitem", "__getitem__", [idx], l_getitem),
    Op("getslice", "__getitem__", [an_slice], l_getslice),
    Op("contains", "__contains__", [val], l_contains),
    Op("count", "count", [val], l_count),
    Op("index", "index", [val], l_index),
    Op("index start", "index", [val, idx], l_index),
    Op("index stop", "index", [val, idx, idx2], l_index),
    Op("repr", "__repr__", [], view("repr")),
    Op("str", "__str__", [], view("str")),
    Op("len", "__len__", [], length),
    Op("iter", "__iter__", [], view("iter")),
    Op("reversed", "__reversed__", [], view("reversed")),
    Op("call", "__call__", [], l_call),
    Op("eq", "__eq__", [val], eq),
    Op("lt", "__lt__", [val], l_cmp("lt")),
    Op("le", "__le__", [val], l_cmp("le")),
    Op("gt", "__gt__", [val], l_cmp("gt")),
    Op("ge", "__ge__", [val], l_cmp("ge")),
    Op("setitem", "__setitem__", [idx, val], l_setitem, True, True),
    Op("setslice", "__setitem__", [an_slice, val], l_setslice, True, True),
    Op("delitem", "__delitem__", [idx], l_delitem, True),
    Op("delslice", "__delitem__", [an_slice], l_delslice, True),
    Op("insert", "insert", [idx, val], l_insert, True, True),
    Op("append", "append", [val], l_append, True, True),
    Op("extend", "extend", [val], l_extend, True, True),
    Op("iadd", "__iadd__", [val], l_iadd, True, True),
    Op("remove", "remove", [val], l_remove, True),
    Op("pop", "pop", [idx], l_pop, True),
    Op("pop last", "pop", [], l_pop_last, True),
    Op("reverse", "reverse", [], l_reverse, True),
    Op("clear", "clear", [], l_clear, True),
    Op("reset", "reset", [val], l_reset, True, True),
]
