#!/usr/bin/env python3
"""Decide one property on /repo's current working tree: check.py PROPERTY."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import assumptions

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
RULE = {
    "faults": "single operations with an injected failure of opening, decoding, encoding, writing or renaming a file; distinct by class, operation, position and failure",
    "hist": "operation histories on real collections compared with a plain dict/list model: all single operations on every class, position and argument of the tables, then random histories; distinct by class, initial content and steps",
    "conflict": "buffered histories with outside changes of the files; distinct by class, steps and change variant",
    "crash": "saves and flushes interrupted or observed at every line and in the middle of every write; distinct by class, operation, mode and crash point",
    "sched": "2-3 threads under a deterministic scheduler with up to 4 preemptions at lines or opcodes, and single operations with an injected fault; distinct by operations and schedule, a run without any preemption counts once",
    "values": "one value at one entry point of one class and position (or one warm-up and observation); distinct by all of these",
}
BUDGET = {"quick": 45, "thorough": 600}


def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, env=env, cwd=HERE, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "", f"timeout after {timeout} s"
    return p.returncode, p.stdout, p.stderr


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.monotonic()
    evdir = os.path.join(HERE, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    for name in os.listdir(repdir):
        if name.startswith(prop + "-"):
            os.unlink(os.path.join(repdir, name))
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), VERIF_REPO=REPO, PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    try:
        return decide(prop, tier, seed, start, evdir, repdir, scratch, env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verify(prop, tier, scratch, env):
    """Obligations of the property; None if the verifier could not run."""
    out = os.path.join(scratch, "proof.json")
    limit, deadline = (60, 300) if tier == "quick" else (600, 3000)
    cmd = [VENV, "pyvc/main.py", prop, "--out", out, "--limit", str(limit), "--deadline", str(deadline)]
    rc, so, se = run(cmd, env, deadline + 60)
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            return json.load(f), ""
    return None, f"verifier ended with {rc}: {se[-1500:]}"


def bounded_run(prop, seed, budget, scratch, env):
    out = os.path.join(scratch, "bounded.json")
    cmd = [VENV, "replay/run.py", prop, "--seed", str(seed), "--budget", str(budget), "--out", out]
    rc, so, se = run(cmd, env, budget * 3 + 200)
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r, r["errors"]
    return None, [f"bounded half ended with {rc}: {se[-2000:]}"]


def confirm(prop, fails, repdir, env, extra):
    """Write replay files and run each in a fresh process."""
    confirmed, unconfirmed = [], []
    for n, fl in enumerate(fails[:12]):
        path = os.path.join(repdir, f"{prop}-{n}.json")
        cmd = f"{VENV} {HERE}/replay/run.py --replay {path}"
        with open(path, "w") as f:
            json.dump({"property": prop, "what": fl["what"], "case": fl["case"], "replay_cmd": cmd, **extra}, f, indent=1)
        rc, so, se = run([VENV, "replay/run.py", "--replay", path], env, 120)
        if rc == 1:
            confirmed.append((path, fl["what"], ""))
            if len(confirmed) >= 3:
                break
        else:
            unconfirmed.append(fl["what"])
            os.unlink(path)
    return confirmed, unconfirmed


def focus_classes(refuted):
    """The classes that the failed obligations are about."""
    return sorted({re.split(r"[(.]", r["task"])[0] for r in refuted})


def decide(prop, tier, seed, start, evdir, repdir, scratch, env):
    violations, unconfirmed = [], []
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    proof, trouble = verify(prop, tier, scratch, env)
    refuted = proof["refuted"] if proof else []
    extra = {"failed_obligations": refuted[:20]} if refuted else {}

    bounded, errors = bounded_run(prop, seed, budget, scratch, env)
    if bounded:
        listed = known_findings(prop)
        for kid in sorted(bounded["known"]):
            if kid in listed:
                print(f"KNOWN-FINDING: property={prop} {listed[kid]}")
        violations, unconfirmed = confirm(prop, bounded["failures"], repdir, env, extra)
    if refuted and not violations:
        # look for a failing input of the classes that the obligations are about
        env2 = dict(env, VERIF_FOCUS=",".join(focus_classes(refuted)))
        for k in (1, 2):
            again, _ = bounded_run(prop, seed + 1000 * k, 1.5 * budget, scratch, env2)
            if again:
                violations, more = confirm(prop, again["failures"], repdir, env, extra)
                unconfirmed += more
            if violations:
                break
    if refuted and not violations:
        path = os.path.join(repdir, f"{prop}-obligations.json")
        with open(path, "w") as f:
            cmd = f"{VENV} {HERE}/pyvc/main.py {prop}"
            json.dump({"property": prop, "replay_cmd": cmd, "failed_obligations": refuted}, f, indent=1)
        what = "; ".join(f"{r['task']}: {r['obligation']} {r['note']}".strip() for r in refuted[:5])
        violations.append((path, "failed obligations: " + what, " no-failing-input-found"))

    cover = assumptions.coverage(prop, proof, trouble, f"{VENV} pyvc/main.py {prop}")
    if bounded:
        sys.path.insert(0, os.path.join(HERE, "replay"))
        import run as harness  # the module table only

        cover |= {
            "evaluations": bounded["evaluations"], "distinct_nontrivial": bounded["distinct"],
            "rule": "; ".join(RULE[m] for m in harness.modules_of(prop)), "samples": bounded["samples"],
            "bounded_cut_by_time": bounded["cut"],
        }  # fmt: skip
    if errors:
        cover["bounded_errors"] = [e[-500:] for e in errors[:3]]
    if unconfirmed:
        cover["unconfirmed"] = unconfirmed[:5]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": assumptions.LEVEL[prop], "coverage": cover,
        "assumptions": assumptions.of(prop), "violations": len(violations), "wall_s": round(time.monotonic() - start, 2),
    }  # fmt: skip
    tmp = os.path.join(evdir, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, f"{prop}.json"))

    for path, what, note in violations:
        print(what[:1500])
        print(f"VIOLATION property={prop} replay={path}{note}")
    if violations:
        return 1
    for e in errors[:3]:
        print(e, file=sys.stderr)
    decided = proof is not None and not proof["unsupported"] and proof["discharged"] == proof["obligations"]
    return 2 if errors and not decided else 0


if __name__ == "__main__":
    sys.exit(main())
