"""Outside changes of buffered files (C07).

A case is a list of steps inside buffering contexts of several files:
  ["op", file, object, kind]   kind: r (read), w (add), x (reset), c (clear)
  ["ext", file, variant]       outside write
  ["force"]                    capacity drops to 0: a forced flush
"""
import itertools
import json
import os
import random

import backends
from backends import Resource, same
import machine
from machine import Failure

TICK = itertools.count()
VARIANTS = ["grow", "samesize", "past", "samemtime"]


def outside(res, content, variant):
    path = os.path.realpath(res.path)
    try:
        st = os.stat(res.path)
    except FileNotFoundError:
        res.write(content)
        return
    if variant == "samesize":
        text = json.dumps(content)
        raw = open(res.path, "rb").read()
        text = text + " " * max(0, len(raw) - len(text))
        if len(text) == len(raw):
            with open(path + ".o", "w") as f:
                f.write(text)
            os.utime(path + ".o", ns=(st.st_mtime_ns + 5000, st.st_mtime_ns + 5000))
            os.replace(path + ".o", path)
            return
    res.write(content)
    if variant == "past":
        t = 10**9 + next(TICK)
        os.utime(res.path, ns=(t, t))
    elif variant == "samemtime":
        # Sizes always grow, so that no earlier version is imitated exactly.
        with open(res.path, "a") as f:
            f.write(" " * (st.st_size + 2))
        os.utime(res.path, ns=(st.st_mtime_ns, st.st_mtime_ns))


class File:
    def __init__(self, case, i, scratch, cls):
        self.res = Resource("json", scratch, case.get("wc", False))
        self.isdict = case["isdict"]
        base = {"a": i, "n": {"x": [1]}} if self.isdict else [i, [1, {"x": 2}]]
        if case.get("absent"):
            base = type(base)()
        else:
            self.res.write(base)
            if case.get("link"):
                os.replace(self.res.path, self.res.path + ".real")
                os.symlink(self.res.path + ".real", self.res.path)
        self.L = self.first = base
        self.D = base
        self.objs = [self.res.open(cls) for _ in range(case["nobj"])]
        self.entered = False  # None: unknown
        self.modified = False
        self.changed = False  # outside change since it entered
        self.frozen = False
        self.touched = False
        self.fp = None


def race(case, scratch):
    """An outside write right after the file was read into the buffer."""
    import builtins

    from synced_collections.errors import BufferedError, MetadataError

    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    res = Resource("json", scratch, case.get("wc", False))
    res.write({"a": 1} if case["isdict"] else [1])
    obj = res.open(cls)
    new = {"o": "outside"} if case["isdict"] else [1, "outside"]
    left = [case["after"]]
    real = builtins.open

    def opening(file, mode="r", *a, **kw):
        f = real(file, mode, *a, **kw)
        if file == res.path and "r" in mode:
            left[0] -= 1
            if left[0] == 0:
                data = f.read()
                f.close()
                builtins.open = real
                res.write(new)
                import io

                return io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data)
        return f

    err = None
    ctx = cls.buffer_backend() if case["ctx"] == "cls" else obj.buffered
    try:
        builtins.open = opening
        ctx.__enter__()
        try:
            if case["isdict"]:
                obj["k"] = 5
            else:
                obj.append(5)
        finally:
            ctx.__exit__(None, None, None)
    except (MetadataError, BufferedError) as e:
        err = e
    finally:
        builtins.open = real
    got = res.read()
    if left[0] > 0:
        return
    merged = {**new, "k": 5} if case["isdict"] else new + [5]
    if not (same(got, new) and err is not None or same(got, merged)):
        raise Failure("conflict", f"outside write while loading was overwritten: {got!r} (error: {err!r})")


def run_case(case, scratch):
    if "after" in case:
        return race(case, scratch)
    from synced_collections.errors import BufferedError, MetadataError

    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    cap0 = cls.get_buffer_capacity()
    files = [File(case, i, scratch, cls) for i in range(case["nfiles"])]
    byname = {f.res.path: i for i, f in enumerate(files)}
    counter = itertools.count(100)
    ctxs = []  # (kind, file or None, context)

    def fail(msg):
        raise Failure("conflict", msg)

    def conflicts(idx):
        return {i for i in idx if files[i].modified and files[i].changed}

    def settle(idx, dropped, what):
        """Expected state of files after a flush of them."""
        for i in idx:
            f = files[i]
            bad = f.modified and f.changed
            if f.modified and not bad:
                f.D = f.L
            got = f.res.read()
            if got is backends.ABSENT and not len(f.D):
                got = f.D
            if not same(got, f.D):
                fail(f"{what}: file {i} holds {got!r}, expected {f.D!r}")
            if not f.modified and f.touched and f.fp != f.res.fingerprint():
                fail(f"{what}: file {i} was only read but written")
            if bad:
                f.L, f.entered, f.frozen = f.D, False, False
                f.touched = False
            elif dropped:
                f.L, f.entered, f.touched = f.D, False, False
            elif f.entered:
                f.frozen = f.frozen or (f.changed and not f.modified)
                f.entered = None
                f.touched = False
            f.modified = f.changed = False

    try:
        base = case.get("base", cap0)
        cls.set_buffer_capacity(base)
        order = case["ctx"]
        for kind in order:
            if kind == "cls":
                c = cls.buffer_backend(*case.get("cap", []))
                c.__enter__()
                ctxs.append(("cls", None, c))
            else:
                for i, f in enumerate(files):
                    for o in f.objs:
                        c = o.buffered
                        c.__enter__()
                        ctxs.append(("obj", i, c))
        for st in case["steps"]:
            if st[0] == "op":
                _, i, o, kind = st
                f = files[i]
                if f.frozen or (kind == "c" and not (len(f.L) and len(f.D) and len(f.first))):
                    continue
                obj = f.objs[o % len(f.objs)]
                if f.entered is False:
                    f.L = f.D
                if not f.entered:
                    f.entered, f.changed = True, False
                    f.first = f.D
                if not f.touched:
                    f.touched, f.fp = True, f.res.fingerprint()
                n = next(counter)
                if kind == "r":
                    got = obj()
                    if not same(got, f.L):
                        fail(f"read of file {i} gave {got!r}, expected {f.L!r}")
                    continue
                if kind == "w":
                    if f.isdict:
                        f.L = {**f.L, f"k{n}": n}
                        obj[f"k{n}"] = n
                    else:
                        f.L = f.L + [n]
                        obj.append(n)
                elif kind == "x":
                    f.L = {"r": n} if f.isdict else [n]
                    obj.reset(f.L)
                else:
                    f.L = type(f.L)()
                    obj.clear()
                f.modified = True
            elif st[0] == "ext":
                _, i, variant = st
                f = files[i]
                if f.entered is None or f.frozen:
                    continue
                n = next(counter)
                f.D = {"o": n} if f.isdict else [n, "o"]
                outside(f.res, f.D, variant)
                f.fp = f.res.fingerprint()
                if f.entered:
                    f.changed = True
                else:
                    f.L = f.D
            else:
                want = conflicts(range(len(files)))
                err = None
                try:
                    cls.set_buffer_capacity(-1)
                except BufferedError as e:
                    err = e
                finally:
                    try:
                        cls.set_buffer_capacity(case["cap"][0] if case.get("cap") and "cls" in case["ctx"] else cap0)
                    except BufferedError as e:
                        err = err or e
                got = {byname.get(n) for n in err.files} if err is not None else set()
                if got != want:
                    fail(f"forced flush reported {sorted(map(str, got))}, conflicting are {sorted(want)}")
                settle(range(len(files)), False, "forced flush")
        # Leave all contexts.
        metadata_errors = set()
        while ctxs:
            kind, i, c = ctxs.pop()
            remaining = [k for k, _, _ in ctxs]
            err = None
            try:
                c.__exit__(None, None, None)
            except (MetadataError, BufferedError) as e:
                err = e
            if kind == "cls":
                held = {j for k, j, _ in ctxs if k == "obj"}
                idx = [] if "cls" in remaining else [j for j in range(len(files)) if j not in held]
                want = conflicts(idx)
                got = set()
                if err is not None:
                    if not isinstance(err, BufferedError):
                        fail(f"leaving the backend-wide context raised {err!r}")
                    got = {byname.get(n) for n in err.files}
                if got != want:
                    fail(f"leaving the backend-wide context reported {sorted(map(str, got))}, conflicting are {sorted(want)}")
                settle(idx, True, "backend-wide exit")
            else:
                if err is not None:
                    if not isinstance(err, MetadataError):
                        fail(f"leaving the context of file {i} raised {err!r}")
                    metadata_errors.add(i)
                    if i not in conflicts([i]):
                        fail(f"leaving the context of file {i} raised without a conflict")
                if "cls" not in remaining and not any(k == "obj" and j == i for k, j, _ in ctxs):
                    if (i in conflicts([i])) != (i in metadata_errors):
                        fail(f"leaving the context of file {i}: conflict not reported")
                    settle([i], True, f"exit of file {i}")
        if cls.get_current_buffer_size() != 0:
            fail(f"buffer size is {cls.get_current_buffer_size()} afterwards")
        if cls.get_buffer_capacity() != base:
            fail(f"capacity is {cls.get_buffer_capacity()} afterwards, was {base}")
        cls.set_buffer_capacity(cap0)
        for i, f in enumerate(files):
            for o in f.objs:
                if f.res.read() is not backends.ABSENT and not same(o(), f.res.read()):
                    fail(f"an object of file {i} shows {o()!r}, disk has {f.res.read()!r}")
            o = f.objs[-1]
            want = o()
            if f.isdict:
                o["post"] = 1
                want["post"] = 1
            else:
                o.append("post")
                want.append("post")
            if not same(f.res.read(), want):
                fail(f"a later write to file {i} gave {f.res.read()!r}, expected {want!r}")
        # A new buffered context works normally.
        with cls.buffer_backend():
            for f in files:
                want = f.objs[0]()
                f.L = {**want, "again": 2} if f.isdict else want + [2]
                if f.isdict:
                    f.objs[0]["again"] = 2
                else:
                    f.objs[0].append(2)
        for i, f in enumerate(files):
            if not same(f.res.read(), f.L):
                fail(f"a later buffered write to file {i} gave {f.res.read()!r}")
    except (MetadataError, BufferedError) as e:
        raise Failure("conflict", f"unexpected {e!r}") from None
    finally:
        while ctxs:
            try:
                ctxs.pop()[2].__exit__(None, None, None)
            except Exception:  # noqa: BLE001
                pass
        cls._BUFFER_CAPACITY = cap0


CTX = [["cls"], ["obj"], ["cls", "obj"], ["obj", "cls"], ["cls", "cls"], ["obj", "obj"]]


def classes():
    return [d.__name__ for _, d, _ in backends.all_pairs(True) if "Buffered" in d.__name__]


def small_cases():
    for cls in classes():
        for isdict in (True, False):
            for ctx in ("cls", "obj"):
                for after in (1, 2, 3):
                    yield {"kind": "conflict", "cls": cls, "isdict": isdict, "ctx": ctx, "after": after}
    acts = ["r0", "w0", "x0", "c0", "E", "F", "r1", "w1"]
    for cls in classes():
        for isdict in (True, False):
            for ctx in CTX:
                for n in (1, 2, 3):
                    for seq in itertools.product(acts, repeat=n):
                        if n == 3 and ("E" not in seq or ctx[-1] == ctx[0] and len(ctx) > 1):
                            continue
                        nobj = 2 if any(a.endswith("1") for a in seq) else 1
                        for v in VARIANTS if "E" in seq and n < 3 else ["grow"]:
                            case = mk(cls, isdict, ctx, 1, nobj, [(0, a) for a in seq], v)
                            yield case
                            if n == 2 and "E" in seq:
                                yield {**case, "link": True}
                                if ctx == ["cls"]:
                                    yield {**case, "cap": [10**6], "base": 0}


def mk(cls, isdict, ctx, nfiles, nobj, acts, variant):
    steps = []
    for f, a in acts:
        if a == "E":
            steps.append(["ext", f, variant])
        elif a == "F":
            steps.append(["force"])
        else:
            steps.append(["op", f, int(a[1]), a[0]])
    return {
        "kind": "conflict", "cls": cls, "isdict": isdict, "ctx": ctx, "nfiles": nfiles, "nobj": nobj,
        "steps": steps,
    }


def random_case(rng):
    nf = rng.choice([1, 2, 3, 4])
    acts = []
    for _ in range(rng.randrange(3, 14)):
        a = rng.choice(["r0", "w0", "x0", "c0", "w1", "r1", "E", "E", "w0"])
        if rng.random() < 0.06:
            a = "F"
        acts.append((rng.randrange(nf), a))
    c = mk(rng.choice(classes()), rng.random() < 0.6, rng.choice(CTX), nf, rng.choice([1, 2]), acts, rng.choice(VARIANTS))
    c["wc"] = rng.random() < 0.3
    if rng.random() < 0.1:
        c["absent"] = True
    if rng.random() < 0.15:
        c["link"] = True
    if rng.random() < 0.3:
        c["cap"] = [10**6]
        if c["ctx"] == ["cls"] and rng.random() < 0.5:
            c["base"] = 0
    return c


def shrink(case, scratch):
    if "steps" not in case:
        return case, None
    best = None
    changed = True
    while changed:
        changed = False
        for i in range(len(case["steps"]) - 1, -1, -1):
            cand = {**case, "steps": case["steps"][:i] + case["steps"][i + 1:]}
            try:
                run_case(cand, scratch)
            except Failure as f:
                case, best, changed = cand, f, True
            except Exception:  # noqa: BLE001
                pass
    return case, best


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    start = clock()
    rng = random.Random(f"{prop}-{seed}")
    small = list(small_cases())
    rng.shuffle(small)

    def one(case):
        stats["evaluations"] += 1
        stats["distinct"].case(case)
        try:
            run_case(case, scratch)
        except Failure as f:
            c, best = shrink(case, scratch)
            return fail(c, best or f)
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
        return False

    for n, case in enumerate(small):
        if n % nworkers == worker:
            if clock() > start + (deadline - start) * 0.6:
                stats["cut"] = True
                break
            if one(case):
                return
    rng = random.Random(f"{prop}-{seed}-{worker}")
    while clock() < deadline:
        if one(random_case(rng)):
            return
