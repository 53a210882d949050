"""Verify the library: main.py [PROPERTY] [--match TEXT] [--out FILE] [-v].

Generates the obligations of every task from the current source, discharges them
and reports those that concern the property."""
import argparse
import json
import multiprocessing
import os
import signal
import sys
import time

sys.setrecursionlimit(5000)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buffer  # noqa: E402
import core  # noqa: E402
import locks  # noqa: E402
import lower  # noqa: E402
import optask  # noqa: E402
import specs  # noqa: E402
import storage  # noqa: E402

GROUPS = {
    "operations": {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18"},
    "functions": {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C16", "C17", "C18", "C19", "C08"},
    "storage": {"C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17"},
    "locks": {"C02", "C04", "C08", "C09", "C10", "C13", "C14", "C17"},
}
GROUPS["buffers"] = {"C02", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C17"}
BUFFERED_ONLY = {"C05", "C06", "C13"}


def op_task(cls, nested, buffered, name):
    c = optask.classes()[cls]
    op = [o for o in specs.operations(c) if o.name == name][0]
    return optask.run_op(c, nested, buffered, op)


def all_tasks():
    """{label: (group, function, arguments)}"""
    out = {}
    for n, c in optask.classes().items():
        for nested in (False, True):
            for b in (False, True) if hasattr(c, "buffer_backend") else (False,):
                for o in specs.operations(c):
                    label = f"{n}{'(nested)' if nested else ''}{'(buffered)' if b else ''}.{o.name}"
                    out[label] = ("operations", op_task, (n, nested, b, o.name))
    cs = optask.classes()
    for group, mod in (("functions", lower), ("storage", storage), ("locks", locks), ("buffers", buffer)):
        for label, (f, args) in mod.tasks().items():
            by_class = f not in (lower.validator_task, lower.resolver_task)
            out[label] = (group, f, tuple(cs.get(a, a) if by_class else a for a in args))
    return out


def relevant(prop, label, group):
    if prop is None:
        return True
    if prop not in GROUPS[group]:
        return False
    if group == "operations" and prop in BUFFERED_ONLY:
        return "(buffered)" in label
    return True


class Timeout(BaseException):
    pass


def expire(*a):
    raise Timeout


def run(label):
    group, f, args = TASKS[label]
    r, start = core.Results(), time.monotonic()
    signal.signal(signal.SIGALRM, expire)
    signal.alarm(LIMIT)
    try:
        info = core.explore(label, f(*args), r)
    except Timeout:
        info = {"paths": 0, "exits": {}, "unsupported": [f"no result after {LIMIT} s"]}
    finally:
        signal.alarm(0)
    obligations = {}
    for it in r.items:
        o = obligations.setdefault(it["name"], {"status": "discharged", "props": set(), "bad": None})
        o["props"] |= set(it["props"])
        order = ("discharged", "undecided", "refuted")
        if order.index(it["status"]) > order.index(o["status"]):
            o["status"] = it["status"]
            o["bad"] = {k: it[k] for k in ("note", "path", "model", "props")}
    if not info["unsupported"] and not info["exits"].get("normal"):
        info["unsupported"] = ["no path reaches the end"]
    for o in obligations.values():
        o["props"] = sorted(o["props"])
        if info["unsupported"] and o["status"] == "discharged":
            o["status"] = "undecided"
    return {
        "task": label, "group": group, "obligations": obligations, "paths": info["paths"], "unsupported": info["unsupported"],
        "executed": sorted(r.executed), "applied": sorted(r.applied), "solver": r.solver, "seconds": time.monotonic() - start,
    }  # fmt: skip


def verify(prop=None, match="", jobs=None, limit=90, deadline=100000):
    global TASKS, LIMIT
    start = time.monotonic()
    TASKS, LIMIT = all_tasks(), limit
    labels = [n for n, t in TASKS.items() if relevant(prop, n, t[0]) and match in n]
    # long tasks first
    labels.sort(key=lambda n: 0 if "_update" in n or "setattr" in n or "__init__" in n or "_buffer" in n or "_flush" in n else 1)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs or min(8, os.cpu_count() or 1)) as pool:
        results, it = [], pool.imap_unordered(run, labels, chunksize=1)
        try:
            for _ in labels:
                results.append(it.next(timeout=max(1, deadline - (time.monotonic() - start))))
        except multiprocessing.TimeoutError:
            done = {r["task"] for r in results}
            for n in labels:
                if n not in done:
                    results.append({"task": n, "obligations": {}, "unsupported": ["not run in time"], "paths": 0, "executed": [], "applied": [], "solver": core.Results().solver})
            pool.terminate()
    results.sort(key=lambda r: r["task"])
    out = {
        "tasks": len(results), "obligations": 0, "discharged": 0, "refuted": [], "undecided": [], "unsupported": [],
        "paths": 0, "solver_calls": 0, "solver_s": 0.0, "cvc5_calls": 0, "wall_s": 0.0,
    }  # fmt: skip
    executed, applied = set(), set()
    for r in results:
        mine = {n: o for n, o in r["obligations"].items() if prop is None or prop in o["props"]}
        if not mine and not r["unsupported"]:
            continue
        executed |= set(r["executed"])
        applied |= set(r["applied"])
        out["paths"] += r["paths"]
        out["solver_calls"] += r["solver"]["calls"]
        out["solver_s"] += r["solver"]["seconds"]
        out["cvc5_calls"] += r["solver"]["cvc5"]
        if r["unsupported"]:
            out["unsupported"].append({"task": r["task"], "why": r["unsupported"][:5]})
        for n, o in mine.items():
            out["obligations"] += 1
            if o["status"] == "discharged":
                out["discharged"] += 1
            elif o["status"] == "refuted" and (prop is None or prop in o["bad"]["props"]):
                out["refuted"].append({"task": r["task"], "obligation": n, **o["bad"]})
            else:
                out["undecided"].append({"task": r["task"], "obligation": n})
    out["executed"], out["applied"] = sorted(executed), sorted(applied)
    out["solver_s"] = round(out["solver_s"], 2)
    out["wall_s"] = round(time.monotonic() - start, 2)
    return out, results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--match", default="")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--limit", type=int, default=90, help="seconds for one task")
    ap.add_argument("--deadline", type=float, default=100000, help="seconds for everything")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    out, results = verify(a.prop, a.match, a.jobs, a.limit, a.deadline)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
        return 0
    if a.v:
        for r in results:
            print(r["task"], len(r["obligations"]), r["paths"], r["unsupported"], round(r["seconds"], 2))
    for r in out["refuted"]:
        print("REFUTED", r["task"], "/", r["obligation"], r["note"], r["path"])
    for r in out["unsupported"]:
        print("UNSUPPORTED", r["task"], r["why"])
    for r in out["undecided"][:20] if not out["unsupported"] else []:
        print("UNDECIDED", r["task"], r["obligation"])
    print({k: len(v) if isinstance(v, list) else v for k, v in out.items()})
    return 0


if __name__ == "__main__":
    sys.exit(main())
