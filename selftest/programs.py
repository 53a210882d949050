"""Small programs for the comparison of the interpreter with CPython.  Each takes
no argument; it returns (or raises) something that can be compared."""
from contextlib import contextmanager


def p_try_finally():
    log = []
    for i in [0, 1, 2]:
        try:
            if i == 1:
                continue
            log.append(i)
            if i == 2:
                break
        finally:
            log.append(10 + i)
    else:
        log.append("else")
    return log


def p_for_else():
    for i in [1, 2]:
        if i == 3:
            break
    else:
        return "else"
    return "break"


def p_while_else():
    n = 0
    while n < 3:
        n += 1
        if n == 5:
            break
    else:
        n = n + 100
    return n


def p_return_in_finally():
    def f():
        try:
            raise KeyError("a")
        finally:
            return 1

    return f()


def p_nested_handlers():
    log = []
    try:
        try:
            raise KeyError("a")
        except ValueError:
            log.append("wrong")
        finally:
            log.append("inner")
    except LookupError as e:
        log.append(type(e) is KeyError)
    else:
        log.append("no")
    return log


def p_reraise():
    log = []
    try:
        try:
            raise ValueError("x")
        except ValueError:
            log.append(1)
            raise
    except ValueError:
        log.append(2)
    return log


def p_raise_from():
    try:
        try:
            {}["a"]
        except KeyError as e:
            raise AttributeError("b") from e
    except AttributeError:
        return "ok"


def p_uncaught():
    log = []
    log.append(1)
    raise IndexError("x")


def p_handler_tuple():
    try:
        [][0]
    except (KeyError, IndexError):
        return "caught"


def p_handler_order():
    try:
        [][0]
    except LookupError:
        return "first"
    except IndexError:
        return "second"


def p_else_raises():
    try:
        try:
            x = 1
        except KeyError:
            x = 2
        else:
            raise KeyError("else")
    except KeyError:
        return x


@contextmanager
def swallow(log):
    log.append("enter")
    try:
        yield "value"
    except KeyError:
        log.append("swallowed")
    finally:
        log.append("exit")


def p_contextmanager():
    log = []
    with swallow(log) as v:
        log.append(v)
        raise KeyError("x")
    log.append("after")
    return log


def p_contextmanager_passes():
    log = []
    try:
        with swallow(log):
            raise IndexError("x")
    except IndexError:
        log.append("outside")
    return log


def p_contextmanager_return():
    log = []

    def f():
        with swallow(log):
            return "r"

    log.append(f())
    return log


@contextmanager
def no_finally(log):
    log.append("enter")
    yield
    log.append("exit")


def p_contextmanager_without_finally():
    log = []
    try:
        with no_finally(log):
            raise KeyError("x")
    except KeyError:
        log.append("outside")
    with no_finally(log):
        log.append("body")
    return log


class Guard:
    def __init__(self, log, stop):
        self.log = log
        self.stop = stop

    def __enter__(self):
        self.log.append("enter")
        return self

    def __exit__(self, exc_type, exc, tb):
        self.log.append("none" if exc_type is None else exc_type.__name__)
        return self.stop


def p_guard_stops():
    log = []
    with Guard(log, True):
        raise KeyError("x")
    return log


def p_guard_passes():
    log = []
    try:
        with Guard(log, False):
            raise KeyError("x")
    except KeyError:
        log.append("outside")
    return log


def p_two_guards():
    log = []
    with Guard(log, True) as a, Guard(log, False):
        log.append(a.stop)
        raise ValueError("x")
    return log


def p_guard_break():
    log = []
    for i in [1, 2]:
        with Guard(log, False):
            if i == 1:
                break
    return log


def p_closure():
    def outer(n):
        def add(k):
            return n + k

        n = n + 1
        return add

    return outer(1)(10)


def p_nonlocal():
    n = 0

    def inc():
        nonlocal n
        n += 1

    inc()
    inc()
    return n


def p_defaults():
    def f(a, b=2, *args, c=3, **kw):
        return [a, b, list(args), c, dict(kw)]

    return [f(1), f(1, 5, 6, 7, c=8, d=9)]


def p_too_many():
    def f(a):
        return a

    f(1, 2)


def p_missing_argument():
    def f(a, b):
        return a

    f(1)


def p_unknown_keyword():
    def f(a):
        return a

    f(a=1, b=2)


def p_star_call():
    def f(a, b, c=0):
        return [a, b, c]

    return f(*[1, 2], **{"c": 3})


def p_chained():
    log = []

    def v(x):
        log.append(x)
        return x

    r = v(1) < v(2) < v(2) < v(5)
    return [r, log]


def p_boolean_values():
    return [0 or "a", 1 and "b", None and 1, "" or 0, not [], not "a"]


def p_conditional():
    return ["yes" if [] else "no", "yes" if [0] else "no"]


def p_unpack():
    a, (b, c) = 1, (2, 3)
    d, e = [4, 5]
    return [a, b, c, d, e]


def p_swap():
    a, b = 1, 2
    a, b = b, a
    return [a, b]


def p_augmented():
    a = [1]
    b = a
    b += [2]
    n = 5
    n -= 2
    return [a, b, a is b, n]


def p_aliases():
    d = {"a": [1]}
    e = d
    e["b"] = 2
    d["a"].append(3)
    return [d, e]


def p_list_methods():
    a = [3, 1, 2]
    a.append(4)
    a.insert(0, 9)
    x = a.pop()
    y = a.pop(0)
    a.reverse()
    a.remove(1)
    a.extend([7, 8])
    return [a, x, y, len(a), 7 in a, a.index(8)]


def p_negative_index():
    a = [1, 2, 3]
    a[-1] = 9
    del a[-3]
    return [a, a[-1], a[-2]]


def p_index_error():
    a = [1]
    return a[-2]


def p_pop_empty():
    [].pop()


def p_dict_methods():
    d = {"a": 1, "b": 2}
    r = [d.pop("a"), d.pop("z", 5), d.get("b"), d.get("q"), d.setdefault("c", 3), d.setdefault("b", 9)]
    d.update({"e": 5})
    r.append("e" in d)
    r.append(len(d))
    del d["b"]
    return [r, d]


def p_dict_missing():
    return {"a": 1}["b"]


def p_del_missing():
    d = {}
    del d["a"]


def p_comprehensions():
    a = [x * 2 for x in [1, 2, 3] if x != 2]
    b = {k: v for k, v in {"a": 1, "b": 2}.items() if v > 1}
    return [a, b]


def p_comprehension_scope():
    x = "outer"
    y = [x for x in [1, 2]]
    return [x, y]


def p_enumerate_zip():
    r = []
    for i, x in enumerate(["a", "b"]):
        r.append([i, x])
    for a, b in zip([1, 2, 3], [4, 5]):
        r.append([a, b])
    return r


def p_range():
    return [list(range(3)), [i for i in range(1, 4)]]


def p_is():
    a = []
    return [a is a, a is [], None is None, a == []]


def p_generator_any_all():
    return [any(x > 2 for x in [1, 2, 3]), all(x > 2 for x in [1, 2, 3]), any(x for x in []), all(x for x in [])]


class Base:
    shared = "base"

    def __init__(self, x):
        self.x = x

    def who(self):
        return "base"

    def call(self):
        return self.who()

    @property
    def double(self):
        return self.x + self.x

    @classmethod
    def name(cls):
        return cls.shared

    @staticmethod
    def plus(a, b):
        return a + b


class Derived(Base):
    shared = "derived"

    def __init__(self, x, y):
        super().__init__(x)
        self.y = y

    def who(self):
        return "derived of " + super().who()


def p_classes():
    d = Derived(1, 2)
    return [d.x, d.y, d.call(), d.double, d.name(), Derived.plus(1, 2), isinstance(d, Base), Base(5).call()]


def p_missing_attribute():
    return Derived(1, 2).z


def p_getattr_default():
    d = Derived(1, 2)
    return [getattr(d, "z", 7), hasattr(d, "x"), hasattr(d, "z")]


def p_delete_attribute():
    d = Derived(1, 2)
    del d.x
    return hasattr(d, "x")


def p_shadowed_class_attribute():
    a, b = Derived(1, 2), Derived(3, 4)
    a.shared = "own"
    return [a.shared, b.shared]


def p_string_methods():
    s = "abc"
    return [s.startswith("_"), "_x".startswith("_"), "a" + s, s == "abc", "b" in s]


def p_early_exit_in_loop():
    def find(xs, y):
        for i, x in enumerate(xs):
            if x == y:
                return i
        return -1

    return [find([5, 6], 6), find([], 1)]


def p_exception_in_finally():
    log = []
    try:
        try:
            raise KeyError("a")
        finally:
            log.append("f")
            raise ValueError("b")
    except ValueError:
        log.append("value")
    return log


def p_exception_unbound():
    try:
        raise KeyError("a")
    except KeyError as e:
        e
    try:
        e
    except NameError:
        return "unbound"
    return "bound"


def p_loop_variable_survives():
    for i in [1, 2, 3]:
        pass
    return i


def p_assert():
    try:
        assert 1 == 2
    except AssertionError:
        return "assertion"


def p_slices():
    a = [0, 1, 2, 3, 4]
    b = a[1:3]
    a[1:3] = [9]
    return [a, b, a[::-1], a[:-1], a[10:]]


def p_equal_but_not_identical():
    return [1 == 1.0, 1 == True, [1] == [1.0], "1" == 1]


def p_sets():
    s = {"a", "b"}
    s.add("c")
    s.discard("a")
    return ["a" in s, "b" in s, "c" in s]


def p_lambda():
    f = lambda x, y=2: x + y  # noqa: E731
    return [f(1), f(1, 1)]
