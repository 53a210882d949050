"""Paths, symbolic values and functional container contents.

A path is one symbolic execution.  Branches on symbolic conditions are decided
by `Path.fork`; alternatives are explored by re-executing from the start with
the recorded decisions.
"""
import os
import time
import traceback

import z3

V = z3.DeclareSort("V")  # any Python value that is data
ID = z3.DeclareSort("ID")  # identities of nested nodes
KIND, (NONE, BOOL, INT, FLOAT, STR, MAP, SEQ, NDARR, OTHER) = z3.EnumSort(
    "Kind", ["none", "bool", "int", "float", "str", "map", "seq", "ndarray", "other"]
)
BOOLS, INTS = z3.BoolSort(), z3.IntSort()
kind = z3.Function("kind", V, KIND)
HAS = z3.Function("has", V, V, BOOLS)
GET = z3.Function("get", V, V, V)
MLEN = z3.Function("mlen", V, INTS)
LEN = z3.Function("len", V, INTS)
AT = z3.Function("at", V, INTS, V)
NORM = z3.Function("norm", V, V)  # data as a collection holds it
JSONOK = z3.Function("jsonok", V, BOOLS)  # representable in JSON
NODOT = z3.Function("nodot", V, BOOLS)  # no dots in keys, keys are strings
STRKEY = z3.Function("strkey", V, BOOLS)  # keys are strings
DET = z3.Function("det", V, V)  # copy without synced collections
DETACHED = z3.Function("detached", V, BOOLS)  # contains no synced collections
COLLECTION = z3.Function("collection", V, BOOLS)
PYEQ = z3.Function("pyeq", V, V, BOOLS)
SAMETYPE = z3.Function("sametype", V, V, BOOLS)
NPSCALAR = z3.Function("npscalar", V, BOOLS)
NDIM = z3.Function("ndim", V, INTS)
ISSC = z3.Function("issynced", V, BOOLS)
TRUTHY = z3.Function("truthy", V, BOOLS)
PLAIN = z3.Function("plain", V, V)  # content of a synced collection given by the caller
NODEID = z3.Function("nodeid", V, V, ID)
NODEIDI = z3.Function("nodeidi", V, INTS, ID)
SUB = z3.Function("sub", V, V)  # the part of a resource at the receiver's position
CTX = z3.Function("ctx", V, V)  # the rest of it
INTV = z3.Function("intv", V, INTS)
BLOB = z3.DeclareSort("Blob")
ENC = z3.Function("enc", V, BLOB)
BLEN = z3.Function("blen", BLOB, INTS)
META = z3.DeclareSort("Meta")
_apps = {}


def app(name, *sorts):
    """An uninterpreted function, created on first use."""
    key = (name, *[str(s) for s in sorts])
    if key not in _apps:
        _apps[key] = z3.Function(name, *sorts)
    return _apps[key]


class Unsupported(Exception):
    """Outside of the supported subset: the obligation stays undecided."""


class Infeasible(Exception):
    """The path cannot be taken."""


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Exc:
    """An exception object."""

    def __init__(self, cls, args=(), injected=None):
        self.cls, self.args, self.injected = cls, args, injected
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.__name__} {self.injected or ''}>"


class Path:
    current = None

    def __init__(self, prefix, results, task):
        self.prefix, self.pos, self.trace, self.labels = prefix, 0, [], []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.results, self.task = results, task
        self.names = 0
        self.strs = {}
        self.axiomatized = set()
        self.preds = {}
        self.imprecise = None
        self.memo = {}
        self.depth = 0
        self.focus = None
        self.clock = 0
        self.dry = 0
        self.loops = []
        self.journal = []
        self.heap = {}

    def tick(self):
        self.clock += 1
        return self.clock

    # ------------------------------------------------------------ decisions
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible
        self.solver.add(c)

    def fork(self, c, label=""):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self._take(c, b, label)
            return b
        self.pos += 1
        if len(self.trace) > 400:
            raise Unsupported("too many decisions on one path")
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if t and f:
            self.alternatives.append(self.trace + [False])
        elif not t and not f:
            raise Infeasible
        self._take(c, t, label)
        return t

    def _take(self, c, b, label):
        self.trace.append(b)
        if label:
            self.labels.append(f"{label}={'yes' if b else 'no'}")
        self.solver.add(c if b else z3.Not(c))

    def maybe(self, label):
        """A free choice."""
        return self.fork(z3.Bool(self.name("choice")), label)

    def name(self, base):
        self.names += 1
        return f"{base}!{self.names}"

    def fresh(self, base, sort=V):
        return z3.Const(self.name(base), sort)

    def entails(self, c):
        if isinstance(c, bool):
            return c
        return self.check(z3.Not(c)) == z3.unsat

    def undo(self, f):
        """Register how to undo an effect made in a dry run."""
        if self.dry:
            self.journal.append(f)

    def dry_explore(self, f):
        """Run f on every local path and roll back its effects.

        Returns the list of what f returned."""
        outcomes, work, runs = [], [[]], 0
        while work:
            prefix = work.pop()
            runs += 1
            if runs > 200:
                raise Unsupported("too many paths in a loop body")
            saved = (self.prefix, self.pos, self.trace, self.labels, self.alternatives, self.focus)
            copies = (dict(self.strs), set(self.axiomatized), dict(self.preds), dict(self.memo), list(self.loops))
            self.prefix, self.pos, self.trace, self.labels, self.alternatives = prefix, 0, [], list(self.labels), []
            self.dry += 1
            self.solver.push()
            mark = len(self.journal)
            try:
                outcomes.append(f())
            except Infeasible:
                pass
            finally:
                while len(self.journal) > mark:
                    self.journal.pop()()
                self.solver.pop()
                self.dry -= 1
                work.extend(self.alternatives)
                self.prefix, self.pos, self.trace, self.labels, self.alternatives, self.focus = saved
                self.strs, self.axiomatized, self.preds, self.memo, self.loops = copies
        return outcomes

    # ---------------------------------------------------------- obligations
    def check(self, *cs):
        start = time.monotonic()
        r = self.solver.check(*cs)
        self.results.solver["calls"] += 1
        self.results.solver["seconds"] += time.monotonic() - start
        return r

    def prove(self, name, c, props, note=""):
        """Discharge one obligation; `note` describes it in a failure report."""
        if self.pos < len(self.prefix):
            return  # already reported on the path this one branched off
        if c is True or (z3.is_expr(c) and z3.is_true(z3.simplify(c))):
            self.results.add(self.task, name, "discharged", props, note, [], None)
            return
        if c is False:
            c = z3.BoolVal(c)
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.check()
        model = None
        if r == z3.sat:
            model = str(self.solver.model())[:2000]
        elif r == z3.unknown:
            r = second_opinion(self.solver)
            self.results.solver["cvc5"] += 1
        self.solver.pop()
        status = "discharged" if r == z3.unsat else "refuted" if r == z3.sat else "undecided"
        if status == "refuted" and self.imprecise:
            status, note = "undecided", f"{note} (imprecise: {self.imprecise})"
        self.results.add(self.task, name, status, props, note, list(self.labels), model)

    # --------------------------------------------------------------- values
    def vstr(self, s):
        """The term of a string constant."""
        if s not in self.strs:
            t = z3.Const(f"str:{s}", V)
            self.solver.add(kind(t) == STR)
            for u in self.strs.values():
                self.solver.add(t != u)
            self.strs[s] = t
            for (pname, arg), f in self.preds.items():
                self.solver.add(f(t) == STRPREDS[pname](s, arg))
        return self.strs[s]

    def strpred(self, pname, arg, term):
        key = (pname, arg)
        if key not in self.preds:
            f = app(f"{pname}:{arg}", V, BOOLS)
            self.preds[key] = f
            for s, t in self.strs.items():
                self.solver.add(f(t) == STRPREDS[pname](s, arg))
        return self.preds[key](term)

    def know(self, t):
        """Ground axioms about a data term."""
        key = t.get_id()
        if key in self.axiomatized:
            return
        self.axiomatized.add(key)
        self.memo[("keep", key)] = t  # keep the term alive, ids are reused
        if z3.is_app(t) and t.decl().eq(DET):
            self.know(t.arg(0))
        self.solver.add(cached(term_axioms, t))

    def member(self, t, k):
        """Ground axioms about whether t has the key k."""
        key = ("member", t.get_id(), k.get_id())
        if key in self.axiomatized:
            return
        self.axiomatized.add(key)
        self.memo[key] = (t, k)
        self.know(t)
        self.solver.add(cached(member_axioms, t, k))
        if z3.is_app(t) and (t.decl().eq(DET) or t.decl().eq(NORM)):
            self.member(t.arg(0), k)

    def child(self, t, k, c):
        """Ground axioms about the child c of t at key or index k."""
        key = ("child", c.get_id())
        if key in self.axiomatized:
            return
        self.axiomatized.add(key)
        self.memo[key] = (t, k, c)
        if z3.is_app(t) and (t.decl().eq(DET) or t.decl().eq(NORM)):
            u = t.arg(0)
            self.child(u, k, AT(u, k) if k.sort() == INTS else GET(u, k))
        if k.sort() != INTS:
            self.member(t, k)
        for x in (t, c):
            self.know(x)
        if k.sort() == INTS:
            self.solver.add(cached(element_axioms, t, k, c))
        else:
            self.strpred("contains", ".", k)
            self.solver.add(cached(item_axioms, t, k, c))


_cache = {}


def cached(f, *terms):
    """The conjunction of the axioms f(*terms), built once."""
    key = (f, *[t.get_id() for t in terms])
    if key not in _cache:
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = (terms, z3.And(*f(*terms)))
    return _cache[key][1]


def term_axioms(t):
    k = kind(t)
    n = NORM(t)
    arr = z3.And(k == NDARR, NDIM(t) > 0)
    scalar = z3.Or(k == NONE, k == BOOL, k == INT, k == STR, z3.And(k == FLOAT, z3.Not(NPSCALAR(t))))
    yield z3.Implies(z3.Or(k == MAP, k == SEQ), z3.And(MLEN(t) >= 0, LEN(t) >= 0, COLLECTION(t)))
    yield z3.Implies(NPSCALAR(t), z3.Or(k == FLOAT, k == OTHER))
    yield z3.Implies(ISSC(t), z3.Or(k == MAP, k == SEQ))
    yield z3.Implies(k == NDARR, z3.And(NDIM(t) >= 0, COLLECTION(t)))
    yield z3.Implies(k == STR, COLLECTION(t))
    yield z3.Implies(z3.Or(k == NONE, k == BOOL, k == INT, k == FLOAT, NPSCALAR(t)), z3.Not(COLLECTION(t)))
    # validity
    yield z3.Implies(JSONOK(t), STRKEY(t))
    yield z3.Implies(NODOT(t), STRKEY(t))
    yield z3.Implies(scalar, z3.And(JSONOK(t), NODOT(t), n == t))
    yield z3.Implies(z3.And(k == OTHER, z3.Not(NPSCALAR(t))), z3.Not(JSONOK(t)))
    # require_string_key does not look into arrays
    yield z3.Implies(z3.Not(z3.Or(k == MAP, k == SEQ)), STRKEY(t))
    yield z3.Implies(z3.Not(z3.Or(k == MAP, k == SEQ, arr)), NODOT(t))
    # normal form
    yield z3.Implies(JSONOK(t), z3.And(kind(n) != NDARR, kind(n) != OTHER, z3.Not(NPSCALAR(n))))
    yield z3.Implies(k == MAP, kind(n) == MAP)
    yield z3.Implies(z3.Or(k == SEQ, arr), z3.And(kind(n) == SEQ, LEN(n) == LEN(t)))
    yield z3.Implies(z3.Not(z3.Or(k == MAP, k == SEQ, arr)), z3.And(kind(n) != MAP, kind(n) != SEQ))
    yield z3.Implies(z3.Not(z3.Or(k == MAP, k == SEQ)), z3.And(DETACHED(t), DET(t) == t))
    if z3.is_app(t) and t.decl().eq(DET):
        u = t.arg(0)
        yield z3.And(DETACHED(t), z3.Not(ISSC(t)), k == kind(u), n == NORM(u), LEN(t) == LEN(u))
        yield z3.And(JSONOK(t) == JSONOK(u), NODOT(t) == NODOT(u), STRKEY(t) == STRKEY(u), MLEN(t) == MLEN(u))
        yield z3.And(TRUTHY(t) == TRUTHY(u), NDIM(t) == NDIM(u), NPSCALAR(t) == NPSCALAR(u))


def member_axioms(t, k):
    ismap = kind(t) == MAP
    yield z3.Implies(ismap, z3.And(HAS(NORM(t), k) == HAS(t, k), HAS(DET(t), k) == HAS(t, k)))
    yield z3.Implies(z3.And(ismap, HAS(t, k)), z3.And(MLEN(t) > 0, app("hashable", V, BOOLS)(k)))


def element_axioms(t, k, c):
    there = z3.And(kind(t) == SEQ, 0 <= k, k < LEN(t))
    arr = z3.And(kind(t) == NDARR, NDIM(t) > 0, 0 <= k, k < LEN(t))
    yield z3.Implies(z3.Or(there, arr), AT(NORM(t), k) == NORM(c))
    # assumption: an array of objects that has string keys only (see zarr-object-array)
    for f in (JSONOK, NODOT, STRKEY):
        yield z3.Implies(z3.And(f(t), z3.Or(there, arr)), f(c))
    yield z3.Implies(z3.And(DETACHED(t), z3.Or(there, arr)), DETACHED(c))
    yield z3.Implies(there, AT(DET(t), k) == DET(c))


def item_axioms(t, k, c):
    there = z3.And(kind(t) == MAP, HAS(t, k))
    dot = app("contains:.", V, BOOLS)(k)
    yield z3.Implies(there, z3.And(GET(NORM(t), k) == NORM(c), GET(DET(t), k) == DET(c)))
    yield z3.Implies(z3.And(JSONOK(t), there), z3.And(JSONOK(c), kind(k) == STR))
    yield z3.Implies(z3.And(STRKEY(t), there), z3.And(STRKEY(c), kind(k) == STR))
    yield z3.Implies(z3.And(NODOT(t), there), z3.And(NODOT(c), kind(k) == STR, z3.Not(dot)))
    yield z3.Implies(z3.And(DETACHED(t), there), DETACHED(c))


def second_opinion(solver):
    """Ask cvc5 about a query that z3 gave up on."""
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager

        s = cvc5.Solver()
        s.setOption("tlimit-per", "10000")
        p = InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + solver.to_smt2(), "q")
        sm = SymbolManager(s.getTermManager()) if hasattr(s, "getTermManager") else p.getSymbolManager()
        out = ""
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(s, sm)
        if "unsat" in out:
            return z3.unsat
    except Exception:  # noqa: BLE001
        pass
    return z3.unknown


STRPREDS = {
    "startswith": lambda s, a: s.startswith(a),
    "endswith": lambda s, a: s.endswith(a),
    "contains": lambda s, a: a in s,
}


def P():
    return Path.current


# ------------------------------------------------------------------- values
class Sym:
    """Data given by a term; `owner` says who may hold references to it."""

    def __init__(self, term, owner="user"):
        self.term, self.owner = term, owner
        P().know(term)

    def __repr__(self):
        return f"Sym({self.term})"


class SInt:
    def __init__(self, term):
        self.term = term


class SBool:
    def __init__(self, term):
        self.term = term


class Cell:
    """An element of a node's data: a scalar or an opaque nested node."""

    def __init__(self, view, ident=None, new=False, cls=None):
        self.view, self.ident, self.new, self.cls = view, ident, new, cls
        self.invalid = False
        P().know(view)

    def set_view(self, view):
        old = self.view
        P().undo(lambda: setattr(self, "view", old))
        self.view = view
        P().know(view)

    def __repr__(self):
        return f"Cell({self.view})"


class TypeOf:
    def __init__(self, value):
        self.value = value


class Opaque:
    """A value nothing is known about except what computed it."""

    def __init__(self, what, *args):
        self.what, self.args = what, args

    def __repr__(self):
        return f"Opaque({self.what})"


class Blob:
    """Bytes that encode the content of a node."""

    def __init__(self, term):
        self.term = term


def isnode(view):
    return z3.Or(kind(view) == MAP, kind(view) == SEQ)


def term(v):
    """The data term of a value."""
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, Cell):
        return v.view
    if isinstance(v, str):
        return P().vstr(v)
    if v is None:
        t = z3.Const("None", V)
        if "none" not in P().memo:
            P().memo["none"] = True
            P().solver.add(kind(t) == NONE)
            P().solver.add(NORM(t) == t)
            for u in P().strs.values():
                P().solver.add(u != t)
        return t
    if isinstance(v, bool):
        t = z3.Const(f"bool:{v}", V)
        P().assume(kind(t) == BOOL)
        return t
    if isinstance(v, int):
        t = z3.Const(f"int:{v}", V)
        P().assume(z3.And(kind(t) == INT, INTV(t) == v))
        return t
    if isinstance(v, SInt):
        t = app("vint", INTS, V)(v.term)
        P().assume(z3.And(kind(t) == INT, INTV(t) == v.term))
        return t
    raise Unsupported(f"no data term for {v!r}")


# ----------------------------------------------------------- map contents
class MapC:
    """Content of a dict as functions of the key (a term)."""

    def __init__(self):
        self._h, self._g = {}, {}

    def has(self, k):
        key = k.get_id()
        if key in self._h:
            return self._h[key][1]
        r = self._has(k)
        if not P().dry:
            self._h[key] = (k, r)
        return r

    def get(self, k):
        key = k.get_id()
        if key in self._g:
            return self._g[key][1]
        r = self._get(k)
        if not P().dry:
            self._g[key] = (k, r)
        return r

    def peek(self, k):
        """The value at k if it is there (forking), else None."""
        return self.get(k) if P().fork(self.has(k), "present") else None

    def concrete_keys(self):
        return None

    def length(self):
        raise Unsupported("length of a computed mapping")


class EmptyMap(MapC):
    def _has(self, k):
        return False

    def _get(self, k):
        raise Unsupported("empty map")

    def concrete_keys(self):
        return []

    def length(self):
        return z3.IntVal(0)


class DataMap(MapC):
    """The content of a data term."""

    def __init__(self, t, owner="user"):
        super().__init__()
        self.t, self.owner = t, owner

    def _has(self, k):
        P().member(self.t, k)
        return HAS(self.t, k)

    def _get(self, k):
        c = GET(self.t, k)
        P().child(self.t, k, c)
        return Sym(c, self.owner)

    def length(self):
        return MLEN(self.t)


class CellMap(MapC):
    """The content of a node whose view is a term."""

    def __init__(self, t, ids=None):
        super().__init__()
        self.t, self.ids = t, ids if ids is not None else t

    def _has(self, k):
        P().member(self.t, k)
        return HAS(self.t, k)

    def _get(self, k):
        c = GET(self.t, k)
        P().child(self.t, k, c)
        return Cell(c, NODEID(self.ids, k))

    def length(self):
        return MLEN(self.t)


class PutMap(MapC):
    def __init__(self, base, k, v):
        super().__init__()
        self.base, self.k, self.v = base, k, v

    def _has(self, k):
        h = self.base.has(k)
        return z3.Or(k == self.k, h) if not isinstance(h, bool) else (True if h else k == self.k)

    def _get(self, k):
        if P().fork(k == self.k, "same key"):
            return self.v
        return self.base.get(k)

    def concrete_keys(self):
        ks = self.base.concrete_keys()
        return None if ks is None else [x for x in ks if not x.eq(self.k)] + [self.k]

    def length(self):
        h = self.base.has(self.k)
        h = z3.BoolVal(h) if isinstance(h, bool) else h
        return self.base.length() + z3.If(h, 0, 1)


class DelMap(MapC):
    """base without k; k is in base."""

    def __init__(self, base, k):
        super().__init__()
        self.base, self.k = base, k

    def _has(self, k):
        h = self.base.has(k)
        return z3.And(k != self.k, h)

    def _get(self, k):
        return self.base.get(k)

    def concrete_keys(self):
        ks = self.base.concrete_keys()
        return None if ks is None else [x for x in ks if not x.eq(self.k)]

    def length(self):
        return self.base.length() - 1


class MergeMap(MapC):
    """{**a, **b}"""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def _has(self, k):
        return z3.Or(zb(self.a.has(k)), zb(self.b.has(k)))

    def _get(self, k):
        if P().fork(self.b.has(k), "in the second mapping"):
            return self.b.get(k)
        return self.a.get(k)

    def concrete_keys(self):
        a, b = self.a.concrete_keys(), self.b.concrete_keys()
        if a is None or b is None:
            return None
        return a + [x for x in b if not any(x.eq(y) for y in a)]


class FunMap(MapC):
    """has(k) and get(k) computed by functions."""

    def __init__(self, has, get, keys=None, length=None):
        super().__init__()
        self.fh, self.fg, self.keys, self.flen = has, get, keys, length

    def _has(self, k):
        return self.fh(k)

    def _get(self, k):
        return self.fg(k)

    def concrete_keys(self):
        return self.keys() if self.keys else None

    def length(self):
        if self.flen is None:
            return super().length()
        return self.flen()


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


# ------------------------------------------------------ sequence contents
class SeqC:
    """Content of a list as a length and a function of the index (a term)."""

    def __init__(self):
        self._m = {}

    def at(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        key = i.get_id()
        if key in self._m:
            return self._m[key][1]
        r = self._at(i)
        if not P().dry:
            self._m[key] = (i, r)
        return r

    def concrete(self):
        """The elements if the length is known, else None."""
        n = z3.simplify(self.length())
        if z3.is_int_value(n):
            return [self.at(z3.IntVal(i)) for i in range(n.as_long())]
        return None


class LitSeq(SeqC):
    def __init__(self, items):
        super().__init__()
        self.items = list(items)

    def length(self):
        return z3.IntVal(len(self.items))

    def _at(self, i):
        for n, x in enumerate(self.items[:-1]):
            if P().fork(i == n):
                return x
        if not self.items:
            if P().entails(z3.BoolVal(False)):
                raise Infeasible
            raise Unsupported("element of an empty list")
        return self.items[-1]


class DataSeq(SeqC):
    def __init__(self, t, owner="user"):
        super().__init__()
        self.t, self.owner = t, owner
        P().assume(LEN(t) >= 0)

    def length(self):
        return LEN(self.t)

    def _at(self, i):
        c = AT(self.t, i)
        P().child(self.t, i, c)
        return Sym(c, self.owner)


class CellSeq(SeqC):
    invalid = False  # made from data that must be rejected

    def __init__(self, t, ids=None):
        super().__init__()
        self.t, self.ids = t, ids if ids is not None else t
        P().assume(LEN(t) >= 0)

    def length(self):
        return LEN(self.t)

    def _at(self, i):
        c = AT(self.t, i)
        P().child(self.t, i, c)
        cell = Cell(c, NODEIDI(self.ids, i))
        cell.invalid = self.invalid
        return cell


class InsertSeq(SeqC):
    def __init__(self, base, i, v):
        super().__init__()
        self.base, self.i, self.v = base, i, v

    def length(self):
        return self.base.length() + 1

    def _at(self, i):
        if P().fork(i == self.i, "inserted element"):
            return self.v
        if P().fork(i < self.i):
            return self.base.at(i)
        return self.base.at(i - 1)


class DelSeq(SeqC):
    def __init__(self, base, i):
        super().__init__()
        self.base, self.i = base, i

    def length(self):
        return self.base.length() - 1

    def _at(self, i):
        if P().fork(i < self.i):
            return self.base.at(i)
        return self.base.at(i + 1)


class SetSeq(SeqC):
    def __init__(self, base, i, v):
        super().__init__()
        self.base, self.i, self.v = base, i, v

    def length(self):
        return self.base.length()

    def _at(self, i):
        if P().fork(i == self.i, "same index"):
            return self.v
        return self.base.at(i)


class ConcatSeq(SeqC):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def length(self):
        return self.a.length() + self.b.length()

    def _at(self, i):
        n = self.a.length()
        if P().fork(i < n, "in the first part"):
            return self.a.at(i)
        return self.b.at(i - n)


class RevSeq(SeqC):
    def __init__(self, base):
        super().__init__()
        self.base = base

    def length(self):
        return self.base.length()

    def _at(self, i):
        return self.base.at(self.base.length() - 1 - i)


class SliceSeq(SeqC):
    """base[lo:hi] with 0 <= lo <= hi <= len(base)."""

    def __init__(self, base, lo, hi):
        super().__init__()
        self.base, self.lo, self.hi = base, lo, hi

    def length(self):
        return self.hi - self.lo

    def _at(self, i):
        return self.base.at(self.lo + i)


class FunSeq(SeqC):
    def __init__(self, length, at):
        super().__init__()
        self.fl, self.fa = length, at

    def length(self):
        return self.fl()

    def _at(self, i):
        return self.fa(i)


# ------------------------------------------------------------ heap objects
class Obj:
    """An instance of a class, with concrete identity."""

    def __init__(self, cls, label=None):
        self.cls, self.attrs, self.label = cls, {}, label
        self.forgotten = set()
        self.birth = P().tick()

    def __repr__(self):
        return f"<{self.cls.__name__} {self.label or ''}>"


ABSENT = object()


class Focus:
    """Generic iteration of a loop: containers that are older than the loop may
    only be accessed at the element of the iteration."""

    def __init__(self, key, start):
        self.key, self.start = key, start
        self.overlay, self.appended, self.whole, self.touched = {}, {}, {}, {}

    def check(self, k):
        if k.sort() == self.key.sort() and (k.eq(self.key) or P().entails(k == self.key)):
            return
        raise Unsupported("loop body accesses another element")


class Heap:
    """What DictObj and ListObj share."""

    def __init__(self, content, owner="fresh", watch=None):
        self.content, self.owner, self.watch = content, owner, watch
        self.birth = P().tick()
        P().heap[self.birth] = self

    def focus(self):
        f = P().focus
        if f is None or self.birth >= f.start:
            return None
        f.touched[id(self)] = self
        return f

    def see(self, rw):
        if self.watch:
            self.watch(rw)

    def whole(self, rw="r"):
        """The entire content, for reading."""
        self.see(rw)
        f = self.focus()
        if f:
            f.whole[id(self)] = self
        return self.content

    def replace(self, content):
        self.see("w")
        if self.focus():
            raise Unsupported("loop body replaces a container")
        self.content = content


class DictObj(Heap):
    def __init__(self, content=None, owner="fresh", watch=None):
        super().__init__(content if content is not None else EmptyMap(), owner, watch)

    def has(self, k):
        self.see("r")
        f = self.focus()
        if f:
            f.check(k)
            if id(self) in f.overlay:
                return f.overlay[id(self)][1] is not ABSENT
        return self.content.has(k)

    def get(self, k):
        self.see("r")
        f = self.focus()
        if f:
            f.check(k)
            if id(self) in f.overlay:
                return f.overlay[id(self)][1]
        return self.content.get(k)

    def put(self, k, v):
        self.see("w")
        f = self.focus()
        if f:
            f.check(k)
            f.overlay[id(self)] = (self, v)
        else:
            self.content = PutMap(self.content, k, v)

    def delete(self, k):
        """k must be present"""
        self.see("w")
        f = self.focus()
        if f:
            f.check(k)
            f.overlay[id(self)] = (self, ABSENT)
        else:
            self.content = DelMap(self.content, k)


class ListObj(Heap):
    def __init__(self, content=None, owner="fresh", watch=None):
        super().__init__(content if content is not None else LitSeq([]), owner, watch)

    def length(self):
        self.see("r")
        f = self.focus()
        if f and id(self) in f.appended:
            raise Unsupported("loop body reads the length of a list it extends")
        return self.content.length()

    def at(self, i):
        self.see("r")
        f = self.focus()
        if f:
            f.check(i)
            if id(self) in f.overlay:
                return f.overlay[id(self)][1]
        return self.content.at(i)

    def setat(self, i, v):
        self.see("w")
        f = self.focus()
        if f:
            f.check(i)
            f.overlay[id(self)] = (self, v)
        else:
            self.content = SetSeq(self.content, i, v)

    def append(self, v):
        self.see("w")
        f = self.focus()
        if f:
            f.appended.setdefault(id(self), (self, []))[1].append(v)
        elif isinstance(self.content, LitSeq):
            self.content = LitSeq(self.content.items + [v])
        else:
            self.content = InsertSeq(self.content, self.content.length(), v)


class KeysOf:
    """The keys of a mapping content that satisfy a condition, as an iterable."""

    def __init__(self, content, what="keys", owner="fresh"):
        self.content, self.what, self.owner = content, what, owner


class Iter:
    """An iterator or view over a container."""

    def __init__(self, what, base):
        self.what, self.base = what, base


class Bound:
    """A method bound to an instance or class; `fn` is a Python function."""

    def __init__(self, fn, self_, owner=None):
        self.fn, self.self_, self.owner = fn, self_, owner


class Native:
    """A builtin operation implemented by the engine."""

    def __init__(self, name, f):
        self.name, self.f = name, f


class Closure:
    def __init__(self, node, frame, name="<lambda>"):
        self.node, self.frame, self.name = node, frame, name


class GenCtx:
    """The result of calling a function decorated with contextmanager."""

    def __init__(self, fn, args, kwargs, owner=None):
        self.fn, self.args, self.kwargs, self.owner = fn, args, kwargs, owner


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Lock:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Lock{self.name}"


class Results:
    """What was proved, by task and obligation name."""

    def __init__(self):
        self.items, self.loops = [], {}
        self.executed, self.applied = set(), set()
        self.solver = {"calls": 0, "seconds": 0.0, "cvc5": 0}

    def add(self, task, name, status, props, note, labels, model):
        self.items.append(
            {
                "task": task, "name": name, "status": status, "props": sorted(props), "note": note,
                "path": labels if status != "discharged" else [], "model": model if status == "refuted" else None,
            }
        )


def explore(task, main, results, limit=3000):
    """Run main on every path; returns counts."""
    work, paths, exits = [[]], 0, {"normal": 0, "raised": 0}
    results.loops = {}
    unsupported = []
    while work:
        prefix = work.pop()
        paths += 1
        if paths > limit:
            unsupported.append("too many paths")
            break
        p = Path.current = Path(prefix, results, task)
        try:
            how = main(p)
            exits[how] = exits.get(how, 0) + 1
        except Infeasible:
            pass
        except Unsupported as e:
            unsupported.append(str(e))
        except PyRaise as e:
            unsupported.append(f"uncaught {e.exc!r}")
        except RecursionError:
            unsupported.append("recursion")
        except Exception as e:
            # code that the interpreter was not written for
            where = traceback.extract_tb(e.__traceback__)[-1]
            unsupported.append(f"{type(e).__name__} at {os.path.basename(where.filename)}:{where.lineno}: {e}"[:200])
        work.extend(p.alternatives)
    Path.current = None
    return {"paths": paths, "exits": exits, "unsupported": sorted(set(unsupported))}
