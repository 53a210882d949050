"""Bounded concrete half: run.py PROPERTY --seed N --budget S --out FILE
or run.py --replay FILE."""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    "faults": ["C01", "C02", "C17"],
    "hist": ["C01", "C02", "C03", "C04", "C05", "C06", "C15", "C16", "C17", "C18"],
    "conflict": ["C07"],
    "crash": ["C08"],
    "sched": ["C09", "C10", "C13", "C14"],
    "values": ["C11", "C12", "C16", "C18", "C19"],
}
KINDS = {"fault": "faults", "history": "hist", "conflict": "conflict", "crash": "crash", "sched": "sched", "values": "values"}


class Seen(set):
    """Distinct cases, with the first few kept as samples."""

    def __init__(self):
        super().__init__()
        self.samples = []

    def case(self, case):
        text = repr(case)
        self.add(hash(text))
        if len(self.samples) < 2:
            self.samples.append(text[:600])


def modules_of(prop):
    return [m for m, ps in MODULES.items() if prop in ps]


def work(prop, seed, worker, nworkers, budget, queue):
    import backends
    import machine

    start = time.monotonic()
    mods = modules_of(prop)
    out = {"failures": [], "stats": {}, "error": None}
    progress = {"n": -1, "ticks": 0, "stats": None}

    def tick(*a):
        n = progress["stats"]["evaluations"] if progress["stats"] else 0
        progress["ticks"] = progress["ticks"] + 1 if n == progress["n"] else 0
        progress["n"] = n
        if progress["ticks"] >= 3:
            progress["ticks"] = 0
            raise machine.Failure("hang", "an operation does not end")

    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 20, 20)
    try:
        with backends.Scratch() as scratch:
            for i, name in enumerate(mods):
                mod = importlib.import_module(name)
                stats = {"evaluations": 0, "distinct": Seen(), "exhaustive": 0, "cut": False}
                progress["stats"] = stats
                deadline = start + budget * (i + 1) / len(mods)

                def fail(case, f):
                    out["failures"].append({"case": case, "what": str(f)})
                    return len(out["failures"]) >= 3

                try:
                    mod.explore(prop, seed, worker, nworkers, deadline, time.monotonic, scratch, stats, fail)
                except Exception:  # noqa: BLE001
                    # The other modules can still decide.
                    out["error"] = traceback.format_exc()
                out["error"] = out["error"] or stats.get("error")
                stats["samples"] = stats["distinct"].samples
                stats["distinct"] = sorted(stats["distinct"])
                out["stats"][name] = stats
    except BaseException:  # noqa: BLE001
        out["error"] = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    queue.put(out)
    queue.close()
    queue.join_thread()
    os._exit(0)


def explore(prop, seed, budget, jobs):
    for m in modules_of(prop):
        importlib.import_module(m)
    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    procs = [
        ctx.Process(target=work, args=(prop, seed, w, jobs, budget, queue)) for w in range(jobs)
    ]
    for p in procs:
        p.start()
    outs = []
    limit = time.monotonic() + budget * 3 + 120
    while len(outs) < jobs and time.monotonic() < limit:
        try:
            outs.append(queue.get(timeout=1))
        except Exception:  # noqa: BLE001
            if not any(p.is_alive() for p in procs) and queue.empty():
                break
    for p in procs:
        p.kill()
    samples = []
    distinct, evals, failures, errors, cut, known = set(), 0, [], [], False, {}
    for o in outs:
        failures += o["failures"]
        if o["error"]:
            errors.append(o["error"])
        for s in o["stats"].values():
            distinct |= set(s["distinct"])
            evals += s["evaluations"]
            samples += s["samples"]
            cut = cut or s["cut"]
            known.update(s.get("known", {}))
    if len(outs) < jobs:
        errors.append(f"{jobs - len(outs)} workers ended without a result")
    return {
        "property": prop, "evaluations": evals, "distinct": len(distinct),
        "failures": failures, "errors": errors, "cut": cut, "known": known, "samples": samples[:4],
    }


def replay(path):
    import backends

    with open(path) as f:
        case = json.load(f)
    case = case.get("case", case)
    mod = importlib.import_module(KINDS[case["kind"]])
    def tick(*a):
        raise TimeoutError("an operation does not end")

    with backends.Scratch() as scratch:
        signal.signal(signal.SIGALRM, tick)
        signal.alarm(60)
        try:
            mod.run_case(case, scratch)
        except Exception as e:  # noqa: BLE001
            print(f"{type(e).__name__}: {e}", flush=True)
            return 1
    print("holds", flush=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=40)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rc = replay(a.replay)
        sys.stdout.flush()
        os._exit(rc)
    res = explore(a.prop, a.seed, a.budget, a.jobs)
    text = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        print(text)


if __name__ == "__main__":
    main()
