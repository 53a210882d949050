"""Histories checked against plain models: C01-C06, C15-C18.

`exhaustive` enumerates every operation on every position of a set of contents;
`random_history` grows longer histories with several objects, files, retained
children, outside writes and buffering contexts.
"""
import copy
import itertools
import random

import backends
import gen
import machine

SEQ = {
    # property: (checks, options)
    "C01": {"checks": ["backend"], "ext": 0.1, "nobj": 2, "keep": 0.1},
    "C02": {"checks": ["readexc", "readresult", "backend"], "ext": 0.3, "nobj": 2, "keep": 0.15},
    "C03": {"checks": ["exc", "result", "rejected"]},
    "C04": {"checks": ["exc", "result", "backend"], "nobj": 3, "keep": 0.2, "ext": 0.05},
    "C05": {"checks": ["exc", "result", "deferred", "backend", "final"], "buffered": 1},
    "C06": {"checks": ["exc", "result", "backend", "final"], "buffered": 2, "nobj": 3, "keep": 0.1},
    "C15": {"checks": ["size", "capacity", "backend", "final"], "buffered": 3, "nobj": 2},
    "C16": {"checks": ["alias", "types"], "synced": 0.15, "buffered": 4, "nobj": 1},
    "C17": {"checks": ["readonly"], "buffered": 4, "nobj": 2, "reads": 0.8},
    "C18": {"checks": ["family", "backend"], "keep": 0.1, "ext": 0.15},
}


def families(prop):
    opt = SEQ[prop]
    if opt.get("buffered") in (1, 2, 3):
        return [p for p in backends.all_pairs(json_only=True) if "Buffered" in p[1].__name__]
    return backends.all_pairs()


def config(prop, fam, cls, files, wc=False):
    return {
        "family": fam, "cls": cls.__name__, "files": files, "wc": wc,
        "checks": SEQ[prop]["checks"],
    }


# ------------------------------------------------------------------ depth one
def exhaustive(prop):
    """(cfg, steps) for every operation at every position of every content,
    taken from all families in turn."""
    for group in itertools.zip_longest(*(_exhaustive(prop, *f) for f in families(prop))):
        yield from (g for g in group if g)


def _exhaustive(prop, fam, d, lst):
    opt = SEQ[prop]
    attr = backends.is_attr(d)
    for c in gen.contents():
        for p in gen.paths(c):
            tg = gen.at(c, p)
            ops = []
            if prop not in ("C17",):
                ops += list(gen.ops_for(tg, attr))
            if prop in ("C02", "C03", "C05", "C06", "C16", "C17"):
                ops += list(gen.reads_for(tg, attr))
            if prop == "C03":
                ops += list(gen.peer_reads(tg))
            if prop == "C02":
                ops = list(gen.reads_for(tg, attr))
            for name, args in ops:
                op = ["op", [0, p], name, args]
                for files, steps in _depth1(prop, opt, fam, d, c, p, op):
                    yield config(prop, fam, d, files), steps


def _depth1(prop, opt, fam, d, c, p, op):
    one = [{"initial": c}]
    empty = type(c)()
    if prop == "C02":
        # Read after the content arrived from outside, through a fresh path.
        yield [{"initial": empty}], [["ext", 0, c], op]
        for other in gen.DICTS[:4] if isinstance(c, dict) else gen.LISTS[:5]:
            yield [{"initial": other}], [["op", [0, []], "call", []], ["ext", 0, c], op]
        if gen.twist(c) != c:
            yield [{"initial": gen.twist(c)}], [["op", [0, []], "call", []], ["ext", 0, c], op]
        if p:
            yield one, [["keep", 0, p], ["ext", 0, c], ["op", ["h", 0], op[2], op[3]]]
        # The outside write restores what was read before an own write.
        own = ["op", [0, []]] + (["setitem", ["zz", 5]] if isinstance(c, dict) else ["append", [5]])
        yield one, [["op", [0, []], "call", []], own, ["ext", 0, c], op]
        return
    if prop == "C04":
        # A stale second object and a stale retained child do the operation.
        files = [{"initial": c, "nobj": 2}]
        fill = ["op", [1, []]] + (["setitem", ["zz", {"q": 1}]] if isinstance(c, dict) else ["append", [{"q": 1}]])
        yield files, [fill, op]
        if p:
            sub = ["h", 0]
            yield files, [["keep", 0, p], fill, ["op", sub, op[2], op[3]]]
            t = gen.at(c, p)
            f2 = ["op", [1, p]] + (["setitem", ["zz", 5]] if isinstance(t, dict) else ["append", [5]])
            yield files, [["keep", 0, p], f2, ["op", sub, op[2], op[3]], ["op", [1, []], "call", []]]
        return
    if prop in ("C05", "C15", "C16", "C17", "C06"):
        nobj = 2 if prop == "C06" else 1
        files = [{"initial": c, "nobj": nobj}]
        has_buf = fam == "json" and "Buffered" in d.__name__
        if prop in ("C16", "C17"):
            yield files, [op]
        if has_buf:
            for ctx in (["all", 0, 1], ["cls", None]):
                if prop == "C06":
                    rd = ["op", [1, []], "call", []]
                    yield files, [["enter", ctx], op, rd, ["exit"]]
                    yield files, [["enter", ctx], rd, op, rd, ["exit", 1]]
                    fill = ["op", [1, []]] + (
                        ["setitem", ["zz", 5]] if isinstance(c, dict) else ["append", [5]]
                    )
                    yield files, [["enter", ctx], rd, op, fill, ["exit"]]
                else:
                    yield files, [["enter", ctx], op, ["exit"], ["op", [0, []], "call", []]]
                    if op[2] in ("setitem", "append", "clear"):
                        yield files, [["enter", ctx], op, ["exit", 0, 1], ["op", [0, []], "call", []]]
            if prop == "C15":
                yield files, [["enter", ["cls", 1]], op, op, ["exit"]]
        return
    yield one, [op]
    if prop == "C01":
        # Someone else restores the former content and the operation is repeated.
        yield one, [op, ["ext", 0, c], op]
    if not len(c):
        yield [{"initial": c, "present": False}], [op]


# -------------------------------------------------------------------- random
class Grower:
    """Grow one random history while executing it."""

    def __init__(self, prop, rng, scratch):
        self.prop, self.rng, self.scratch = prop, rng, scratch
        self.opt = SEQ[prop]

    def value(self, depth=0):
        r = self.rng
        x = r.random()
        if depth > 2 or x < 0.5:
            return r.choice(gen.SCALARS)
        if x < 0.75:
            return {r.choice(gen.KEYS): self.value(depth + 1) for _ in range(r.randrange(3))}
        return [self.value(depth + 1) for _ in range(r.randrange(3))]

    def content(self, isdict):
        r = self.rng
        if isdict:
            return {k: self.value() for k in gen.KEYS if r.random() < 0.6}
        return [self.value() for _ in range(r.randrange(4))]

    def op(self, target, attr):
        r = self.rng
        reads = r.random() < self.opt.get("reads", 0.35)
        v = self.value
        if isinstance(target, dict):
            k = r.choice(gen.KEYS + ["d"])
            if reads:
                return r.choice([
                    ("getitem", [k]), ("get", [k]), ("get", [k, v()]), ("len", []), ("iter", []),
                    ("contains", [k]), ("keys", []), ("values", []), ("items", []), ("call", []),
                    ("eq", [copy.deepcopy(target)]), ("eq", [v()]), ("repr", []), ("bool", []),
                ] + ([("attr_get", [k]), ("hasattr", [k])] if attr else []))
            pairs = [[r.choice(gen.KEYS), v()] for _ in range(r.randrange(3))]
            return r.choice([
                ("setitem", [k, v()]), ("setitem", [k, v()]), ("setitem", [k, v(1)]),
                ("delitem", [k]), ("pop", [k]), ("pop", [k, v()]), ("popitem", []),
                ("clear", []), ("update", [dict(pairs)]), ("update", [pairs]),
                ("update_kw", [dict(pairs)]), ("setdefault", [k, v()]), ("setdefault", [k]),
                ("reset", [self.content(True)]), ("update_iter", [pairs]),
            ] + ([("attr_set", [k, v()]), ("attr_del", [k])] if attr else []))
        n = len(target)
        i = r.randrange(-n - 1, n + 1)
        s = ["slice", r.choice([None, 0, 1, -1, 2]), r.choice([None, 1, 2, -1]), r.choice([None, None, 1, 2, -1])]
        if reads:
            return r.choice([
                ("getitem", [i]), ("getitem", [s]), ("len", []), ("iter", []), ("call", []),
                ("reversed", []), ("contains", [v()]), ("index", [v()]), ("count", [v()]),
                ("eq", [copy.deepcopy(target)]), ("repr", []), ("bool", []),
                (r.choice(["lt", "le", "gt", "ge"]), [[v() for _ in range(2)]]),
            ])
        return r.choice([
            ("setitem", [i, v()]), ("setitem", [i, v()]), ("setitem", [s, [v() for _ in range(r.randrange(3))]]),
            ("delitem", [i]), ("delitem", [s]), ("insert", [i, v()]), ("append", [v()]),
            ("append", [v()]), ("extend", [[v(), v()]]), ("iadd", [[v()]]), ("pop", []), ("pop", [i]),
            ("remove", [copy.deepcopy(target[i]) if -n <= i < n else v()]), ("reverse", []),
            ("clear", []), ("reset", [self.content(False)]), ("extend_iter", [[v()]]),
            ("slice_iter", [s, [v()]]), ("iadd_iter", [[v()]]),
        ])

    def setup(self):
        r, opt = self.rng, self.opt
        fam, d, lst = r.choice(families(self.prop))
        mode = opt.get("buffered")
        nfiles = r.choice([1, 1, 2, 3]) if mode in (1, 2, 3) else 1
        isdict = r.random() < 0.6
        files = []
        for _ in range(nfiles):
            init = self.content(isdict)
            present = not (not init and r.random() < 0.5)
            nobj = r.randint(1, opt["nobj"]) if opt.get("nobj") else 1
            if mode == 2:
                nobj = r.randint(2, opt["nobj"])
            files.append({"initial": init, "present": present, "nobj": nobj})
            if nfiles > 1 and fam == "json" and r.random() < 0.2:
                # a buffer of another class
                files[-1]["cls"] = r.choice(families(self.prop))[1].__name__
            if nfiles > 1 and r.random() < 0.2:
                isdict = not isdict
        return fam, d, config(self.prop, fam, d, files, wc=r.random() < 0.3)

    def run(self, length):
        """Returns (cfg, steps, failure or None, effective steps)."""
        r, opt = self.rng, self.opt
        fam, d, cfg = self.setup()
        attr = backends.is_attr(d)
        buffered = opt.get("buffered") and fam == "json" and "Buffered" in d.__name__
        w = machine.World(copy.deepcopy(cfg), self.scratch)
        steps, eff, seen = [], 0, {}
        nf = len(cfg["files"])
        try:
            for k in range(length):
                st = None
                x = r.random()
                if buffered and x < 0.2 and len(w.stack) < 3 and k < length - 3:
                    st = ["enter", self.ctx(w, nf)]
                elif buffered and x < 0.3 and w.stack:
                    st = ["exit", r.randrange(2)] + ([1] if r.random() < 0.2 else [])
                elif buffered and x < 0.33 and opt["buffered"] in (3,) and w.stack:
                    st = ["cap", r.choice([0, 1, 2, 10, 30])]
                elif r.random() < opt.get("ext", 0):
                    f = r.randrange(nf)
                    new = self.content(isinstance(w.models[f], dict))
                    st = ["ext", f, r.choice(seen[f]) if seen.get(f) and r.random() < 0.4 else new]
                    seen.setdefault(f, []).append(st[2])
                elif r.random() < opt.get("keep", 0):
                    o = r.randrange(len(w.objs))
                    ps = [p for p in gen.paths(w.models[w.fileof[o]]) if p]
                    if ps:
                        st = ["keep", o, r.choice(ps)]
                elif r.random() < 0.01:
                    st = ["threads", int(r.random() < 0.6)]
                if st is None:
                    st = self.opstep(w, attr)
                steps.append(st)
                if w.step(st) != "skipped":
                    eff += 1
            while w.stack:
                st = ["exit", r.randrange(2)]
                steps.append(st)
                w.step(st)
            w.finish()
        except machine.Stop:
            pass
        except machine.Failure as f:
            return cfg, steps, f, eff
        finally:
            w.close()
        return cfg, steps, None, eff

    def ctx(self, w, nf):
        r, mode = self.rng, self.opt["buffered"]
        if r.random() < 0.45:
            caps = [None, None, 0, 1, 2, 10, 60] if mode in (2, 3) else [None]
            if r.random() < 0.3:
                return ["cls", r.choice(caps), r.randrange(3)]
            return ["cls", r.choice(caps)]
        f = r.randrange(nf)
        if w.fileof.count(f) == 1:
            o = w.fileof.index(f)
            if r.random() < 0.15:
                return ["obj", o, r.choice(list(gen.paths(w.models[f])))]
            return ["obj", o]
        return ["all", f, r.randrange(1, 7)]

    def opstep(self, w, attr):
        r = self.rng
        live = [i for i, h in enumerate(w.handles) if h[3]]
        if live and r.random() < 0.5:
            n = r.choice(live)
            h, o, p = ["h", n], w.handles[n][0], w.handles[n][1]
        else:
            o = r.randrange(len(w.objs))
            p = r.choice(list(gen.paths(w.models[w.fileof[o]])))
            h = [o, p]
        name, args = self.op(gen.at(w.models[w.fileof[o]], p), attr and backends.is_attr(type(w.objs[o])))
        if r.random() < self.opt.get("synced", 0.03) and name in ("setitem", "append", "insert", "setdefault", "extend", "update", "reset"):
            o2 = r.randrange(len(w.objs))
            src = r.choice(list(gen.paths(w.models[w.fileof[o2]])))
            m2 = gen.at(w.models[w.fileof[o2]], src)
            ok = name not in ("extend", "reset", "update") or (isinstance(m2, dict) == (name == "update" or isinstance(gen.at(w.models[w.fileof[o]], p), dict)))
            if ok and not (name == "setdefault" and len(args) < 2) and not (args and isinstance(args[0], list) and args[0][:1] == ["slice"]):
                args[-1] = {"$synced": [o2, src]}
        return ["op", h, name, args]


def shrink(cfg, steps, kind, scratch, limit=400):
    """Drop steps while the failure stays."""
    def fails(s):
        try:
            machine.run(cfg, s, scratch)
        except machine.Failure as f:
            return f if f.kind == kind else None
        except Exception:  # noqa: BLE001
            return None
        return None

    best = None
    changed = True
    while changed and limit > 0:
        changed = False
        i = len(steps) - 1
        while i >= 0 and limit > 0:
            cand = steps[:i] + steps[i + 1:]
            limit -= 1
            f = fails(cand)
            if f is not None:
                steps, best, changed = cand, f, True
            i -= 1
    return steps, best


# ---------------------------------------------------------------------- cases
def run_case(case, scratch):
    """Replay one recorded history."""
    machine.run(case["cfg"], case["steps"], scratch)


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    """Exhaustive part first (split between workers), then random histories."""
    for n, (cfg, steps) in enumerate(exhaustive(prop)):
        if n % nworkers != worker:
            continue
        if n % 64 == 0 and clock() > deadline:
            stats["cut"] = True
            break
        stats["evaluations"] += 1
        try:
            eff = machine.run(cfg, steps, scratch)
            if eff:
                stats["distinct"].case([cfg["cls"], cfg["files"], steps])
        except machine.Failure as f:
            if fail({"kind": "history", "cfg": cfg, "steps": steps}, f):
                return
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
    stats["exhaustive"] += 1
    rng = random.Random(f"{prop}-{seed}-{worker}")
    while clock() < deadline:
        g = Grower(prop, rng, scratch)
        stats["evaluations"] += 1
        try:
            cfg, steps, f, eff = g.run(rng.choice([4, 8, 14, 24]))
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
            continue
        if eff:
            stats["distinct"].case([cfg["cls"], cfg["files"], steps])
        if f is not None:
            steps, best = shrink(cfg, steps, f.kind, scratch)
            if fail({"kind": "history", "cfg": cfg, "steps": steps}, best or f):
                return
