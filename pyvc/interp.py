"""Interpreter of the Python subset the library is written in.

Functions are found by reflection on the imported library and executed from the
AST of the current source files.  Everything outside of the subset raises
Unsupported, which leaves the obligations of the path undecided.
"""
import ast
import builtins
import collections
import collections.abc
import functools
import types

import z3

from core import *  # noqa: F403
from core import ABSENT, BOOLS, INTS

_sources = {}


def module_ast(filename):
    if filename not in _sources:
        path = filename
        if filename == "<frozen _collections_abc>":
            path = collections.abc.__file__.replace("collections/abc.py", "_collections_abc.py")
        elif filename == "<frozen abc>":
            raise Unsupported("frozen abc")
        tree = ast.parse(open(path).read())
        table = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([node.lineno] + [d.lineno for d in node.decorator_list])
                table.setdefault((node.name, first), node)
            elif isinstance(node, ast.Lambda):
                table.setdefault(("<lambda>", node.lineno, node.col_offset), node)
        _sources[filename] = table
    return _sources[filename]


def lambda_node(fn):
    code = fn.__code__
    table = module_ast(code.co_filename)
    found = [n for k, n in table.items() if k[0] == "<lambda>" and k[1] == code.co_firstlineno]
    if len(found) == 1:
        return found[0]
    spans = {(p[0], p[2]) for p in code.co_positions() if p[0] is not None and p[2] is not None}
    for n in found:
        b = n.body
        inside = [s for s in spans if (b.lineno, b.col_offset) <= s <= (b.end_lineno, b.end_col_offset)]
        if inside and len(inside) >= len(spans) - 2:
            return n
    raise Unsupported("cannot find a lambda")


def function_node(fn):
    code = fn.__code__
    if code.co_name == "<lambda>":
        return lambda_node(fn)
    table = module_ast(code.co_filename)
    node = table.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return node


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Poison:
    """The value of a variable assigned in a symbolic loop."""


POISON = Poison()
MISSING = object()


class Frame:
    def __init__(self, fn_globals, qualname, cls=None, first=None, closure=None):
        self.globals, self.qualname, self.cls, self.first = fn_globals, qualname, cls, first
        self.locals, self.closure = {}, closure or {}
        self.parent = None
        self.on_yield = None
        self.exc = None
        self.nonlocals = set()


def is_function(f):
    return isinstance(f, types.FunctionType)


def assigned_names(stmts):
    names = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
    return names


class Interp:
    def __init__(self, world):
        self.w = world
        self.stack = []
        import natives

        self.n = natives.Natives(self)

    # --------------------------------------------------------------- lookup
    def cls_lookup(self, cls, name, start=None):
        """(value, owner) of a class attribute along the MRO."""
        mro = cls.__mro__
        if start is not None:
            mro = mro[mro.index(start) + 1 :]
        for k in mro:
            if (k, name) in self.w.overlay:
                return self.w.overlay[(k, name)], k
            if name in k.__dict__:
                return self.w.wrap(k.__dict__[name], k, name), k
        return MISSING, None

    def bind(self, v, obj, cls, owner):
        """Bind a class attribute found for obj (or for the class if obj is None)."""
        if isinstance(v, classmethod):
            return Bound(v.__func__, cls, owner)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, property):
            if obj is None:
                return v
            if isinstance(v.fget, Closure):
                return self.call(v.fget, [obj], {})
            return self.call(Bound(v.fget, obj, owner), [], {})
        if is_function(v) and obj is not None:
            return Bound(v, obj, owner)
        if isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
            if obj is None and not isinstance(v, types.ClassMethodDescriptorType):
                return Native(v.__name__, lambda a, kw: self.n.slot(v.__name__, a[0], a[1:], kw) if a and isinstance(a[0], Obj) else self.n.slot(v.__name__, cls, a, kw))
            return Native(v.__name__, lambda a, kw, v=v: self.n.slot(v.__name__, obj if obj is not None else cls, a, kw))
        return v

    def getattr(self, obj, name):
        if isinstance(obj, Obj):
            hook = self.w.attr_hook(self, obj, name)
            if hook is not MISSING:
                return hook
            v, owner = self.cls_lookup(obj.cls, name)
            if isinstance(v, property):
                return self.bind(v, obj, obj.cls, owner)
            if name in obj.attrs:
                return obj.attrs[name]
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if v is not MISSING:
                return self.bind(v, obj, obj.cls, owner)
            unknown = self.w.is_synced_class(obj.cls) and isinstance(name, str) and not name.startswith("__")
            if unknown or name in obj.forgotten:
                # An earlier call may have set it.
                raise Unsupported(f"attribute {name} is not part of the modelled state")
            g, owner = self.cls_lookup(obj.cls, "__getattr__")
            if is_function(g):
                return self.call(Bound(g, obj, owner), [name], {})
            raise PyRaise(Exc(AttributeError, (name,)))
        if isinstance(obj, Super):
            if isinstance(obj.obj, Obj):
                v, owner = self.cls_lookup(obj.obj.cls, name, obj.cls)
                if v is MISSING:
                    raise PyRaise(Exc(AttributeError, (name,)))
                return self.bind(v, obj.obj, obj.obj.cls, owner)
            v, owner = self.cls_lookup(obj.obj, name, obj.cls)
            if v is MISSING:
                raise PyRaise(Exc(AttributeError, (name,)))
            return self.bind(v, None, obj.obj, owner)
        if isinstance(obj, type):
            if name in ("__name__", "__qualname__", "__module__", "__mro__", "__bases__"):
                return getattr(obj, name)
            v, owner = self.cls_lookup(obj, name)
            if v is MISSING:
                if name == "__class__":
                    return type(obj)
                raise PyRaise(Exc(AttributeError, (name,)))
            return self.bind(v, None, obj, owner)
        return self.n.getattr(obj, name)

    def setattr(self, obj, name, value):
        if isinstance(obj, Obj):
            s, owner = self.cls_lookup(obj.cls, "__setattr__")
            if is_function(s):
                return self.call(Bound(s, obj, owner), [name, value], {})
            return self.raw_setattr(obj, name, value)
        if isinstance(obj, type):
            old = self.w.overlay.get((obj, name), MISSING)

            def back():
                if old is MISSING:
                    self.w.overlay.pop((obj, name), None)
                else:
                    self.w.overlay[(obj, name)] = old

            P().undo(back)
            if P().focus:
                P().memo[("loopwrite", obj, name)] = True
            self.w.class_write(obj, name, value)
            self.w.overlay[(obj, name)] = value
            return None
        if isinstance(obj, Exc):
            obj.attrs[name] = value
            return None
        raise Unsupported(f"attribute assignment on {obj!r}")

    def raw_setattr(self, obj, name, value):
        if isinstance(name, Sym):
            self.w.named.append(("set", obj, name, value))
            return None
        v, owner = self.cls_lookup(obj.cls, name)
        if isinstance(v, property):
            if v.fset is None:
                raise PyRaise(Exc(AttributeError, (name,)))
            return self.call(Bound(v.fset, obj, owner), [value], {})
        old = obj.attrs.get(name, MISSING)

        def back():
            if old is MISSING:
                obj.attrs.pop(name, None)
            else:
                obj.attrs[name] = old

        P().undo(back)
        self.w.attr_write(self, obj, name, value)
        obj.attrs[name] = value
        return None

    def delattr(self, obj, name):
        if isinstance(obj, Obj):
            s, owner = self.cls_lookup(obj.cls, "__delattr__")
            if is_function(s):
                return self.call(Bound(s, obj, owner), [name], {})
            return self.raw_delattr(obj, name)
        raise Unsupported("del attribute")

    def raw_delattr(self, obj, name):
        if isinstance(name, Sym):
            self.w.named.append(("delete", obj, name))
            return None
        if name not in obj.attrs:
            raise PyRaise(Exc(AttributeError, (name,)))
        del obj.attrs[name]

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        if isinstance(f, Bound):
            c = self.w.contract(self, f.fn, f.self_, args, kwargs)
            if c is not MISSING:
                return c
            if isinstance(f.fn, (Native, Closure)):
                return self.call(f.fn, [f.self_, *args], kwargs)
            return self.call_function(f.fn, [f.self_, *args], kwargs, f.owner)
        if isinstance(f, Native):
            return f.f(args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if is_function(f):
            c = self.w.contract(self, f, None, args, kwargs)
            if c is not MISSING:
                return c
            if self.w.in_scope(f):
                return self.call_function(f, args, kwargs, None)
            return self.n.external(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m, owner = self.cls_lookup(f.cls, "__call__")
            if m is MISSING:
                raise PyRaise(Exc(TypeError))
            return self.call(Bound(m, f, owner), args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        return self.n.external(f, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            e = Exc(cls, tuple(args))
            init, owner = self.cls_lookup(cls, "__init__")
            if is_function(init) and self.w.in_scope(init):
                self.call_function(init, [e, *args], kwargs, owner)
            return e
        r = self.n.construct(cls, args, kwargs)
        if r is not MISSING:
            return r
        c = self.w.construct(self, cls, args, kwargs)
        if c is not MISSING:
            return c
        if not self.w.class_in_scope(cls):
            return self.n.external(cls, args, kwargs)
        obj = Obj(cls)
        init, owner = self.cls_lookup(cls, "__init__")
        if is_function(init):
            self.call(Bound(init, obj, owner), args, kwargs)
        return obj

    def call_function(self, fn, args, kwargs, owner):
        wrapped = getattr(fn, "__wrapped__", None)
        if wrapped is not None:
            if fn.__code__.co_filename.endswith("contextlib.py"):
                return GenCtx(wrapped, args, kwargs, owner)
            raise Unsupported("decorated function")
        return self.run_function(fn, args, kwargs, owner)

    def run_function(self, fn, args, kwargs, owner, on_yield=None):
        node = function_node(fn)
        closure = {}
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                closure[name] = cell.cell_contents
        frame = Frame(fn.__globals__, fn.__qualname__, closure.get("__class__", owner), None, closure)
        defaults = list(fn.__defaults__ or ())
        kwdefaults = dict(fn.__kwdefaults__ or {})
        self.bind_args(frame, node.args, args, kwargs, defaults, kwdefaults, fn.__qualname__)
        frame.first = args[0] if args else None
        frame.on_yield = on_yield
        self.w.entered(fn)
        return self.run_body(node, frame)

    def run_body(self, node, frame):
        self.stack.append(frame)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            for s in node.body:
                self.exec(s, frame)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.stack.pop()

    def call_closure(self, c, args, kwargs):
        frame = Frame(c.frame.globals, c.name, c.frame.cls, c.frame.first, c.frame.closure)
        frame.parent = c.frame
        node = c.node
        defaults = [self.eval(d, c.frame) for d in node.args.defaults]
        kwd = {
            a.arg: self.eval(d, c.frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None
        }
        self.bind_args(frame, node.args, args, kwargs, defaults, kwd, c.name)
        return self.run_body(node, frame)

    def bind_args(self, frame, spec, args, kwargs, defaults, kwdefaults, name):
        params = [a.arg for a in spec.posonlyargs] + [a.arg for a in spec.args]
        posonly = {a.arg for a in spec.posonlyargs}
        kwargs = dict(kwargs)
        values = {}
        for p, v in zip(params, args):
            values[p] = v
        rest = list(args[len(params) :])
        if rest and spec.vararg is None:
            raise PyRaise(Exc(TypeError, (f"{name}: too many arguments",)))
        if spec.vararg is not None:
            values[spec.vararg.arg] = tuple(rest)
        for p in params:
            if p in kwargs and p not in posonly:
                if p in values:
                    raise PyRaise(Exc(TypeError, (f"{name}: multiple values for {p}",)))
                values[p] = kwargs.pop(p)
        for p, d in zip(params[len(params) - len(defaults) :], defaults):
            if p not in values:
                values[p] = self.w.wrap(d)
        for a in spec.kwonlyargs:
            if a.arg in kwargs:
                values[a.arg] = kwargs.pop(a.arg)
            elif a.arg in kwdefaults:
                values[a.arg] = kwdefaults[a.arg]
        for p in params + [a.arg for a in spec.kwonlyargs]:
            if p not in values:
                raise PyRaise(Exc(TypeError, (f"{name}: missing {p}",)))
        if spec.kwarg is not None:
            d = DictObj()
            for k, v in kwargs.items():
                d.content = PutMap(d.content, P().vstr(k), v)
            d.pykwargs = kwargs
            values[spec.kwarg.arg] = d
        elif kwargs:
            raise PyRaise(Exc(TypeError, (f"{name}: unexpected {sorted(kwargs)}",)))
        frame.locals.update(values)

    # ----------------------------------------------------------- statements
    def exec(self, s, f):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, f)

    def block(self, stmts, f):
        for s in stmts:
            self.exec(s, f)

    def x_Pass(self, s, f):
        pass

    def x_Expr(self, s, f):
        self.eval(s.value, f)

    def x_Return(self, s, f):
        raise ReturnSig(self.eval(s.value, f) if s.value is not None else None)

    def x_Break(self, s, f):
        raise BreakSig

    def x_Continue(self, s, f):
        raise ContinueSig

    def x_Import(self, s, f):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    mod = getattr(mod, part)
            self.store_name(a.asname or a.name.split(".")[0], mod, f)

    def x_ImportFrom(self, s, f):
        import importlib

        mod = importlib.import_module("." * s.level + (s.module or ""), f.globals.get("__package__"))
        for a in s.names:
            self.store_name(a.asname or a.name, self.w.wrap(getattr(mod, a.name)), f)

    def x_Global(self, s, f):
        raise Unsupported("global")

    def x_Nonlocal(self, s, f):
        if any(n in f.closure for n in s.names):
            raise Unsupported("variable of an enclosing call that has ended")
        f.nonlocals |= set(s.names)

    def x_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            raise PyRaise(Exc(AssertionError))

    def x_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def x_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def x_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), f)
            self.assign(t, self.inplace(s.op, old, self.eval(s.value, f)), f)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, f)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            obj, k = self.eval(t.value, f), self.eval_index(t.slice, f)
            old = self.getitem(obj, k)
            self.setitem(obj, k, self.inplace(s.op, old, self.eval(s.value, f)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, ListObj) and isinstance(op, ast.Add):
            self.n.list_extend(a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.eval_index(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            if items is None or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("unpacking")
            if len(items) != len(t.elts):
                raise PyRaise(Exc(ValueError, ("unpack",)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, f)
        else:
            raise Unsupported("assignment target")

    def store_name(self, name, v, f):
        if name in f.nonlocals:
            g = f.parent
            while g is not None:
                if name in g.locals:
                    g.locals[name] = v
                    return
                g = g.parent
        f.locals[name] = v

    def x_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, f), self.eval_index(t.slice, f))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, f), t.attr)
            else:
                raise Unsupported("del")

    def x_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.block(s.body, f)
        else:
            self.block(s.orelse, f)

    def x_FunctionDef(self, s, f):
        fn = Closure(s, f, s.name)
        if s.decorator_list:
            if len(s.decorator_list) > 1 or self.eval(s.decorator_list[0], f) is not property:
                raise Unsupported("decorated local function")
            fn = property(fn)
        f.locals[s.name] = fn

    def x_Raise(self, s, f):
        if s.exc is None:
            g = f
            while g is not None:
                if g.exc is not None:
                    raise PyRaise(g.exc)
                g = g.parent
            raise PyRaise(Exc(RuntimeError))
        e = self.eval(s.exc, f)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.instantiate(e, [], {})
        if not isinstance(e, Exc):
            raise Unsupported("raise of a non-exception")
        if s.cause is not None:
            self.eval(s.cause, f)
        raise PyRaise(e)

    def x_Try(self, s, f):
        def attempt():
            try:
                self.block(s.body, f)
            except PyRaise as pr:
                for h in s.handlers:
                    if self.matches(pr.exc, h, f):
                        old = f.exc
                        f.exc = pr.exc
                        if h.name:
                            f.locals[h.name] = pr.exc
                        try:
                            self.block(h.body, f)
                        finally:
                            f.exc = old
                            if h.name:
                                f.locals.pop(h.name, None)
                        return
                raise
            self.block(s.orelse, f)

        if not s.finalbody:
            return attempt()
        try:
            attempt()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            self.block(s.finalbody, f)
            raise
        self.block(s.finalbody, f)

    def matches(self, exc, h, f):
        if h.type is None:
            return True
        t = self.eval(h.type, f)
        for c in t if isinstance(t, tuple) else (t,):
            if not isinstance(c, type):
                raise Unsupported("exception type")
            if issubclass(exc.cls, c):
                return True
        return False

    def x_With(self, s, f):
        self.with_items(s.items, 0, s.body, f)

    def with_items(self, items, i, body, f):
        if i == len(items):
            self.block(body, f)
            return
        item = items[i]
        cm = self.eval(item.context_expr, f)

        def inner(value):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value, f)
            self.with_items(items, i + 1, body, f)

        self.with_(cm, inner)

    def with_(self, cm, inner):
        """Run inner(value) in the context cm."""
        if isinstance(cm, GenCtx):
            signal, yields = [], []

            def on_yield(value):
                if yields:
                    raise Unsupported("second yield")
                yields.append(1)
                try:
                    inner(value)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    signal.append(e)

            self.run_function(cm.fn, cm.args, cm.kwargs, cm.owner, on_yield)
            if not yields:
                raise PyRaise(Exc(RuntimeError, ("generator didn't yield",)))
            if signal:
                raise signal[0]
            return
        enter, exit_ = self.special(cm, "__enter__"), self.special(cm, "__exit__")
        value = self.call(enter, [], {})
        try:
            inner(value)
        except PyRaise as pr:
            if self.truth(self.call(exit_, [pr.exc.cls, pr.exc, Opaque("traceback")], {})):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(exit_, [None, None, None], {})
            raise
        self.call(exit_, [None, None, None], {})

    def special(self, obj, name):
        if isinstance(obj, Obj):
            v, owner = self.cls_lookup(obj.cls, name)
            if v is MISSING:
                raise PyRaise(Exc(TypeError, (f"no {name}",)))
            return self.bind(v, obj, obj.cls, owner)
        return self.n.getattr(obj, name)

    # ---------------------------------------------------------------- loops
    def x_While(self, s, f):
        hook = self.w.while_hook(self, s, f)
        if hook:
            return
        for _ in range(60):
            if not self.truth(self.eval(s.test, f)):
                self.block(s.orelse, f)
                return
            try:
                self.block(s.body, f)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported("while loop")

    def x_For(self, s, f):
        it = self.eval(s.iter, f)
        items = self.concrete_items(it)
        if items is not None:
            for x in items:
                self.assign(s.target, x, f)
                try:
                    self.block(s.body, f)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            self.block(s.orelse, f)
            return
        dom = self.n.domain(it)
        names = assigned_names(s.body) | assigned_names([ast.Assign([s.target], s.iter)])

        def body(elem):
            for n in names:
                f.locals[n] = POISON
            self.assign(s.target, elem, f)
            try:
                self.block(s.body, f)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break in a symbolic loop") from None
            return None

        self.pointwise(dom, body, f)
        for n in names:
            f.locals[n] = POISON
        self.block(s.orelse, f)

    def probed(self, probe):
        """What the generic iteration does to containers on each of its paths.

        A path that shares its decisions up to here with an earlier one reuses
        the outcome: execution is deterministic."""
        p = P()
        key = (tuple(p.trace), p.clock, p.names)
        cache = p.results.loops
        if p.dry or key not in cache:
            runs = []
            for fo, out in p.dry_explore(probe):
                births = {
                    "touched": [h.birth for h in fo.touched.values()],
                    "overlay": [h.birth for h, _ in fo.overlay.values()],
                    "whole": [h.birth for h in fo.whole.values()],
                    "appended": [(h.birth, len(xs)) for h, xs in fo.appended.values()],
                }
                runs.append((births, out))
            found = runs, p.clock, p.names
            if not p.dry:
                cache[key] = found
        else:
            found = cache[key]
        runs, p.clock, p.names = found
        at = p.heap
        return [
            (
                {
                    n: [(at[b[0]], b[1]) if n == "appended" else at[b] for b in bs if (b[0] if n == "appended" else b) in at]
                    for n, bs in births.items()
                },
                out,
            )
            for births, out in runs
        ]

    def pointwise(self, dom, body, frame):
        """Loop rule for bodies whose effect on containers is limited to the element
        of the iteration."""
        p = P()
        start = p.tick()
        mutated, appended, whole = {}, {}, {}
        exits = set()
        runs, touched, counts = [], {}, {}
        start_locals, snapshot = dict(frame.locals), []

        def run(k):
            """One iteration at element k; returns (focus, outcome, value)."""
            outer, before = p.focus, self.w.ghost()
            p.focus = Focus(k, start)
            depth = len(self.stack)
            locals_now, contents_now = frame.locals, [(h, h.content) for h, _ in snapshot]
            frame.locals = dict(start_locals)
            for h, c in snapshot:
                h.content = c
            try:
                try:
                    value = body(dom.elem(k))
                    out = "normal", value
                except PyRaise as e:
                    out = "raise", e
                except ReturnSig:
                    raise Unsupported("return in a symbolic loop") from None
                fo = p.focus
                if out[0] == "normal" and self.w.ghost() != before:
                    raise Unsupported("loop body has a lasting effect")
            finally:
                p.focus = outer
                del self.stack[depth:]
                frame.locals = locals_now
                for h, c in contents_now:
                    h.content = c
            return fo, out

        def probe():
            k = dom.generic(p)
            fo, out = run(k)
            return fo, out[0]

        for fo, out in self.probed(probe):
            runs.append(out)
            for h in fo["touched"]:
                touched[id(h)] = h
            if out == "normal":
                mutated.update((id(h), h) for h in fo["overlay"])
                whole.update((id(h), h) for h in fo["whole"])
                for h, n in fo["appended"]:
                    counts.setdefault(id(h), (h, []))[1].append(n)
        exits.update(runs)
        snapshot.extend((h, h.content) for h in touched.values())
        normal = runs.count("normal")
        for i, (c, ns) in counts.items():
            if len(ns) != normal or set(ns) != {1}:
                raise Unsupported("loop body appends to a list sometimes")
            appended[i] = c
        for i in mutated:
            if i in whole or i in appended:
                raise Unsupported("loop body reads all of a container it changes")
        if "raise" in exits and p.maybe("an element raises"):
            k = dom.generic(p)
            fo, out = run(k)
            if out[0] != "raise":
                raise Infeasible
            p.memo.setdefault("raised at", []).append((dom, k))
            for c in [*mutated.values(), *appended.values()]:
                c.see("w")
                c.content = UnknownC()
            raise out[1]
        done = {}

        def at(k):
            key = k.get_id()
            if key not in done:
                if P() is not p:
                    raise Unsupported("stale loop")
                self.w.lazy += 1
                try:
                    fo, out = run(k)
                finally:
                    self.w.lazy -= 1
                if out[0] == "raise":
                    raise Infeasible
                if p.dry:
                    return fo, out[1]
                done[key] = (fo, out[1], k)
            return done[key][:2]

        p.loops.append((dom, at))
        if p.focus is not None and any(c.birth < p.focus.start for c in [*mutated.values(), *appended.values()]):
            raise Unsupported("nested loops change a container")
        for i, c in mutated.items():
            c.see("w")
            c.content = dom.after(c.content, at, i)
        for i, c in appended.items():
            c.see("w")
            base = c.content
            tail = dom.sequence(lambda k, i=i: at(k)[0].appended[i][1][0])
            c.content = tail if isinstance(base, LitSeq) and not base.items else ConcatSeq(base, tail)
        return at

    # ---------------------------------------------------------- expressions
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        g = f
        while g is not None:
            if e.id in g.locals:
                v = g.locals[e.id]
                if v is POISON:
                    raise Unsupported(f"{e.id} is carried around a symbolic loop")
                return v
            g = g.parent
        if e.id in f.closure:
            return self.w.wrap(f.closure[e.id])
        if e.id in f.globals:
            return self.w.wrap(f.globals[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise PyRaise(Exc(NameError, (e.id,)))

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def eval_index(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, f)

    def e_Subscript(self, e, f):
        return self.getitem(self.eval(e.value, f), self.eval_index(e.slice, f))

    def e_Slice(self, e, f):
        return self.eval_index(e, f)

    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in f.locals and not e.args:
            g = f
            while g.parent is not None:
                g = g.parent
            return Super(g.cls, g.first)
        fn = self.eval(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.concrete_items(self.eval(a.value, f))
                if items is None:
                    raise Unsupported("star argument")
                args.extend(items)
            else:
                args.append(self.eval(a, f))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, f)
                kw = getattr(d, "pykwargs", None)
                if kw is None:
                    raise Unsupported("double star argument")
                for n, v in kw.items():
                    if n in kwargs:
                        raise PyRaise(Exc(TypeError, ("multiple values",)))
                    kwargs[n] = v
            else:
                if k.arg in kwargs:
                    raise PyRaise(Exc(TypeError, ("multiple values",)))
                kwargs[k.arg] = self.eval(k.value, f)
        return self.call(fn, args, kwargs)

    def e_Tuple(self, e, f):
        return tuple(self.eval(x, f) for x in e.elts)

    def e_List(self, e, f):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            if len(e.elts) == 1:
                return self.n.construct(list, [self.eval(e.elts[0].value, f)], {})
            raise Unsupported("starred list")
        return ListObj(LitSeq([self.eval(x, f) for x in e.elts]))

    def e_Set(self, e, f):
        return frozenset(self.eval(x, f) for x in e.elts)

    def e_Dict(self, e, f):
        d = DictObj()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.content = merge(d.content, self.n.mapping_content(self.eval(v, f)))
            else:
                key = self.eval(k, f)
                val = self.eval(v, f)
                self.n.hashable(key)
                d.content = PutMap(d.content, self.n.key(key), val)
        return d

    def e_JoinedStr(self, e, f):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                try:
                    parts.append(self.eval(x.value, f))
                except (Unsupported, PyRaise):
                    parts.append(Opaque("text"))
            else:
                parts.append(x.value)
        return Opaque("text", *parts)

    def e_Lambda(self, e, f):
        return Closure(e, f)

    def e_IfExp(self, e, f):
        return self.eval(e.body if self.truth(self.eval(e.test, f)) else e.orelse, f)

    def e_BoolOp(self, e, f):
        conj = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i < len(e.values) - 1 and self.truth(v) != conj:
                return self.decided(v, not conj)
        return v

    def decided(self, v, b):
        """The value of an operand whose truth has been decided."""
        return b if isinstance(v, SBool) else v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.term)
            if isinstance(v, (int, float)):
                return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, f):
        return self.binop(e.op, self.eval(e.left, f), self.eval(e.right, f))

    def binop(self, op, a, b):
        return self.n.binop(op, a, b)

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        result = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(right, f)
            result = self.n.compare(op, left, r)
            if i < len(e.ops) - 1:
                if not self.truth(result):
                    return False
            left = r
        return result

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_Yield(self, e, f):
        if f.on_yield is None:
            raise Unsupported("generator")
        f.on_yield(self.eval(e.value, f) if e.value is not None else None)
        return None

    def e_ListComp(self, e, f):
        return self.comprehension(e, f, "list")

    def e_GeneratorExp(self, e, f):
        return self.comprehension(e, f, "list")

    def e_SetComp(self, e, f):
        return self.comprehension(e, f, "set")

    def e_DictComp(self, e, f):
        return self.comprehension(e, f, "dict")

    def comprehension(self, e, f, what):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.eval(g.iter, f)
        inner = Frame(f.globals, f.qualname, f.cls, f.first, f.closure)
        inner.parent = f
        items = self.concrete_items(it)
        if items is not None:
            out, d = [], DictObj()
            for x in items:
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    if what == "dict":
                        k, v = self.eval(e.key, inner), self.eval(e.value, inner)
                        self.n.hashable(k)
                        d.content = PutMap(d.content, self.n.key(k), v)
                    else:
                        out.append(self.eval(e.elt, inner))
            return d if what == "dict" else ListObj(LitSeq(out))
        dom = self.n.domain(it)

        def body(elem):
            inner.locals.clear()
            self.assign(g.target, elem, inner)
            for c in g.ifs:
                if not self.truth(self.eval(c, inner)):
                    return None
            if what == "dict":
                return (self.eval(e.key, inner), self.eval(e.value, inner))
            return (self.eval(e.elt, inner),)

        at = self.pointwise(dom, body, f)

        def value(k):
            return at(k)[1]

        if what == "dict":
            if not dom.keyed:
                raise Unsupported("dict comprehension over a sequence")

            def keeps(k):
                v = value(k)
                if v is None:
                    return False
                if not P().entails(self.n.key(v[0]) == k):
                    raise Unsupported("dict comprehension changes keys")
                return True

            def has(k):
                if not P().fork(zb(dom.has(k)), "in source"):
                    return False
                return keeps(k)

            def get(k):
                if not P().fork(zb(dom.has(k)), "in source"):
                    raise Infeasible
                if not keeps(k):
                    raise Infeasible
                return value(k)[1]

            return DictObj(FunMap(has, get, length=dom.length if not g.ifs else None))
        if dom.keyed:
            # a subset of the keys

            def has(k):
                if not P().fork(zb(dom.has(k)), "in source"):
                    return False
                v = value(k)
                if v is None:
                    return False
                if not P().entails(self.n.key(v[0]) == k):
                    raise Unsupported("list comprehension over a mapping")
                return True

            return KeysOf(FunMap(has, lambda k: None), "keys")
        if g.ifs:
            raise Unsupported("filtered comprehension over a sequence")
        return ListObj(dom.sequence(lambda i: value(i)[0]))

    # --------------------------------------------------------------- shared
    def truth(self, v):
        return self.n.truth(v)

    def getitem(self, obj, k):
        return self.n.getitem(obj, k)

    def setitem(self, obj, k, v):
        return self.n.setitem(obj, k, v)

    def delitem(self, obj, k):
        return self.n.delitem(obj, k)

    def concrete_items(self, v):
        return self.n.concrete_items(v)


def merge(a, b):
    """The content of {**a, **b}."""
    if isinstance(a, EmptyMap):
        return b
    ks = b.concrete_keys()
    if ks is None:
        return MergeMap(a, b)
    for k in ks:
        a = PutMap(a, k, b.get(k))
    return a


class UnknownC:
    """The content of a container after a loop was left by an exception."""

    def __getattr__(self, name):
        raise Unsupported("content after a failed loop")
