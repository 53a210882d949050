"""Verification of one public operation."""
import z3

import specs
from core import *  # noqa: F403
from core import ABSENT, BOOLS, INTS
from natives import strip, empty_term
from specs import AnyItem, Either, Ok, Raises, Same, Self, SliceOf, Unspecified, Val
from upper import Upper, family_of
from world import World


def classes():
    import synced_collections.backends.collection_json as cj
    import synced_collections.backends.collection_mongodb as cm
    import synced_collections.backends.collection_redis as cr
    import synced_collections.backends.collection_zarr as cz

    out = {}
    for mod in (cj, cr, cm, cz):
        for n, c in vars(mod).items():
            if isinstance(c, type) and c.__module__ == mod.__name__ and (n.endswith("Dict") or n.endswith("List")):
                out[n] = c
    return out


def op_props(w, op):
    base = {"C03"}
    base |= {"C01", "C04"} if op.write else {"C02"}
    if w.is_buffered:
        base |= {"C05", "C06"}
    if op in specs.ATTR_OPS:
        base |= {"C18"}
    return base


def content_of(w, v):
    """The content of a returned container."""
    if isinstance(v, Sym):
        t = v.term
        P().know(t)
        return DataMap(t, v.owner) if w.ismap else DataSeq(t, v.owner)
    if isinstance(v, (DictObj, ListObj)):
        return v.content
    if isinstance(v, KeysOf):
        return v.content
    return None


def run_op(cls, nested, buffered, op):
    """The main function of the task."""

    def main(p):
        w = Upper(cls, nested, buffered)
        ip = w.ip
        args = [a(w) for a in op.args]
        for a in args:
            if isinstance(a, Sym):
                p.know(a.term)
        pos_args, kw = (args, {})
        if op.kw:
            n = len(op.kw)
            pos_args, kw = args[: len(args) - n], dict(zip(op.kw, args[len(args) - n :]))
        try:
            result, exc = ip.call(ip.getattr(w.me, op.method), pos_args, kw), None
        except PyRaise as e:
            result, exc = None, e.exc
        return check_op(w, op, args, result, exc)

    return main


def check_op(w, op, args, result, exc):
    p, ip = P(), w.ip
    props = op_props(w, op)
    events = list(w.events)
    saves = list(w.saves)
    final_ctx = w.ctx
    # locks and counters
    p.prove("all locks are released", not any(w.held.values()), {"C10"})
    for o, n, v in w.counters:
        now = o.attrs.get(n)
        a = now.term if isinstance(now, SInt) else now
        b = v.term if isinstance(v, SInt) else v
        same = a == b
        p.prove("counters are restored", same, {"C10", "C01"} | ({"C05"} if w.is_buffered else set()))
    if getattr(w.me.cls, "_threading_support_is_active", False):
        lock = ip.getattr(w.root, "_thread_lock")
        needed = [(lock, "lock")]
        if w.is_buffered:
            needed.append((ip.getattr(w.root, "_buffer_lock"), "buffer lock"))
        for lk, what in needed:
            sections = {e[2].get(lk) for e in events if e[0] in ("res", "mem")}
            ok = len(sections) <= 1 and None not in sections
            pr = {"C13", "C14"} if w.is_buffered else {"C09" if op.write else "C14"}
            if not w.is_buffered and not op.write:
                pr.add("C09")
            p.prove(f"the operation is one critical section of the {what}", ok, pr)
    if not op.write:
        p.prove("reading does not write", not any(e[:2] == ("res", "w") for e in events) and not saves, {"C17"})
    for s in saves:
        if w.nested:
            p.prove("the surrounding data is current when it is saved", s.ctx == "current", {"C04", "C01"})
    if exc is not None and exc.injected:
        p.prove("a failed operation stores nothing", not saves, {"C01"})
        return "raised"
    if w.fault_used:
        p.prove("I/O errors are reported", False, {"C01"})
        return "normal"
    # the expected outcome
    try:
        want = op.spec(w, w.fresh, *args)
    except Raises as r:
        want = r
    if isinstance(want, Either):
        opts = [o for o in want.options if isinstance(o, Raises) == (exc is not None)]
        want = opts[0]
    if isinstance(want, Raises):
        names = "/".join(c.__name__ for c in want.classes)
        rp = {"C11"} if want.why else {"C03"} | props & {"C18"}
        if exc is None:
            p.prove(f"raises {names}", False, rp)
            return "normal"
        p.prove(f"raises {names}", issubclass(exc.cls, want.classes), rp, f"raised {exc!r}")
        frame(w, saves, rp | {"C03"})
        return "raised"
    if exc is not None:
        p.prove("succeeds", False, props | ({"C12"} if op.stores else set()), f"raised {exc!r}")
        return "raised"
    # the result
    compare_result(w, op, want.result, result, {"C03"} & props | props & {"C18"} | (props if not op.write else set()), saves)
    # the content
    if op.write and not isinstance(want.result, AnyItem):
        got = saves[-1].content if saves else w.fresh
        cp = props | ({"C12", "C16"} if op.stores else set())
        compare_content(w, got, want.content, cp)
    elif not op.write:
        pass
    return "normal"


def frame(w, saves, props):
    """Nothing changed."""
    p = P()
    if getattr(w, "tainted", False):
        p.prove("rejected data does not reach memory", False, {"C11"})
        return
    if saves:
        compare_content(w, saves[-1].content, w.fresh, props, "content is unchanged")
    now = w.data().content
    if now is not w.stale and now is not w.fresh:
        compare_content(w, now, w.fresh, props | {"C11"}, "memory is unchanged")


def same_value(v, want):
    """(formula) the values are the same data"""
    p = P()
    if isinstance(v, Cell) and v.invalid:
        return False
    a, b = strip(term(v)), strip(term(want))
    return z3.Or(a == b, a == DET(b))


def compare_content(w, got, want, props, name="the resource holds the expected content"):
    p = P()
    if w.ismap:
        k = z3.Const("kappa", V)
        p.know(k)
        gh, wh = zb(got.has(k)), zb(want.has(k))
        p.prove(f"{name}: keys", gh == wh, props)
        if p.fork(wh, "kappa present") and p.fork(gh, "kappa stored"):
            g, x = got.get(k), want.get(k)
            p.prove(f"{name}: values", same_value(g, x), props)
            if isinstance(g, Cell):
                p.prove("rejected data is not stored", not g.invalid, {"C11"})
        return
    i = z3.Int("iota")
    p.prove(f"{name}: length", got.length() == want.length(), props)
    if p.fork(z3.And(0 <= i, i < want.length(), i < got.length()), "iota in range"):
        g, x = got.at(i), want.at(i)
        p.prove(f"{name}: elements", same_value(g, x), props)
        if isinstance(g, Cell):
            p.prove("rejected data is not stored", not g.invalid, {"C11"})


def is_detached(v):
    if isinstance(v, Sym):
        return DETACHED(v.term)
    if isinstance(v, Cell):
        return z3.Not(isnode(v.view))
    return True


def compare_result(w, op, want, got, props, saves):
    p = P()
    name = "the result is the one of the built-in type"
    if isinstance(want, Unspecified):
        return
    if want is None:
        if isinstance(got, (Sym, Cell)):
            p.prove(name, kind(term(got)) == NONE, props)
        else:
            p.prove(name, got is None, props)
    elif isinstance(want, Self):
        p.prove(name, got is w.me, props)
    elif isinstance(want, Sym):
        p.prove(name, got is want or (isinstance(got, Sym) and got.term == want.term), props)
    elif isinstance(want, (bool, SBool)):
        f = zb(want) if isinstance(want, bool) else want.term
        if isinstance(got, bool):
            p.prove(name, f == got, props)
        elif isinstance(got, SBool):
            p.prove(name, f == got.term, props)
        elif got is None:
            p.prove(name, False, props, "None")
        else:
            raise Unsupported("result")
    elif isinstance(want, SInt):
        if isinstance(got, (SInt, int)):
            p.prove(name, want.term == (got.term if isinstance(got, SInt) else got), props)
        elif got is None:
            p.prove(name, False, props, "None")
        else:
            raise Unsupported("result")
    elif isinstance(want, Val):
        if not isinstance(got, (Sym, Cell)) and got is not None:
            raise Unsupported("result")
        p.prove(name, strip(term(got)) == strip(want.t), props | ({"C16"} if op.method == "pop" else set()))
    elif isinstance(want, AnyItem):
        if not isinstance(got, tuple) or len(got) != 2:
            p.prove(name, False, props)
            return
        k = term(got[0])
        p.prove(f"{name}: key", zb(w.fresh.has(k)), props)
        p.prove(f"{name}: value", same_value(got[1], w.fresh.get(k)), props)
        stored = saves[-1].content if saves else w.fresh
        compare_content(w, stored, DelMap(w.fresh, k), {"C01", "C03", "C04"})
    elif isinstance(want, SliceOf):
        c = content_of(w, got)
        x = want.sl.get(w.fresh)
        compare_seq(c, x, name, props)
    elif isinstance(want, Same):
        compare_same(w, op, want.what, got, name, props)
    else:
        raise Unsupported("expected result")


def compare_seq(c, x, name, props, detached=False):
    p = P()
    if not isinstance(c, SeqC):
        raise Unsupported("result")
    p.prove(f"{name}: length", c.length() == x.length(), props)
    i = z3.Int("iota")
    if p.fork(z3.And(0 <= i, i < x.length()), "iota in range"):
        p.prove(f"{name}: elements", same_value(c.at(i), x.at(i)), props)
        if detached:
            p.prove("results are detached from the collection", is_detached(c.at(i)), {"C16"})


def compare_same(w, op, what, got, name, props):
    p = P()
    base = got
    if what in ("keys", "values", "items"):
        if not isinstance(got, Iter) or got.what != what:
            raise Unsupported("result")
        base = got.base
    if what == "iter":
        if not isinstance(got, Iter) or got.what != "iter":
            raise Unsupported("result")
        base = got.base
    if what == "reversed":
        if not isinstance(got, Iter) or got.what != "reversed":
            raise Unsupported("result")
        base = got.base
    if what in ("repr", "str"):
        if not isinstance(got, Opaque) or got.what not in ("repr", "text") or len(got.args) != 1:
            raise Unsupported("result")
        base = got.args[0]
        plain = isinstance(base, Sym) and p.entails(DETACHED(base.term)) or isinstance(base, (DictObj, ListObj)) and base is not w.data() and empty_term(base.content) is not None
        if not plain:
            raise Unsupported("text of a collection")
    if what in ("iter", "reversed"):
        p.prove("iteration is not affected by later changes", base is not w.data(), {"C14"})
    c = content_of(w, base)
    if c is None:
        raise Unsupported("result")
    detached = what in ("all", "keys", "values", "items")
    if detached:
        if isinstance(base, Sym):
            p.prove("results are detached from the collection", z3.And(DETACHED(base.term), z3.Not(ISSC(base.term))), {"C16"})
        else:
            p.prove("results are detached from the collection", base is not w.data(), {"C16"})
    if isinstance(c, SeqC):
        compare_seq(c, w.fresh, name, props, detached)
        return
    k = z3.Const("kappa", V)
    p.know(k)
    gh, wh = zb(c.has(k)), zb(w.fresh.has(k))
    p.prove(f"{name}: keys", gh == wh, props)
    if what != "iter" and not isinstance(base, KeysOf) and p.fork(wh, "kappa present") and p.fork(gh, "kappa in result"):
        v = c.get(k)
        p.prove(f"{name}: values", same_value(v, w.fresh.get(k)), props)
        if detached:
            p.prove("results are detached from the collection", is_detached(v), {"C16"})
