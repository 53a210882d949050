"""What the proofs rest on, and how the evidence of a run is put together."""
LEVEL = {f"C{i:02}": "proof" for i in range(1, 20)}

TRUSTED = [
    "pyvc: the interpreter of the Python subset (pyvc/interp.py) and its semantics of built-in types (pyvc/natives.py, axioms in pyvc/core.py)",
    "z3 4.x, and cvc5 for queries z3 gives up on",
    "CPython: parsing, method resolution and class construction, from which functions, contracts and registries are looked up",
    "postconditions and axioms as written in pyvc/specs.py, upper.py, lower.py, storage.py, locks.py, buffer.py",
]
GENERAL = [
    "integers are mathematical integers; recursion depth and memory are not limited",
    "partial correctness: termination is not proved; recursion over nested data uses the contract of the function itself (induction over depth)",
    "data is finite and acyclic and has no NaN or infinity; string methods and predicates are uninterpreted apart from their values on constants",
    "a history of operations is covered by induction: an operation starts from any valid resource content and any stale memory, and leaves such a state",
    "text built with f-strings and str.format is not evaluated",
    "iteration order of mappings is not modelled: operations that depend on it are covered by the bounded half only",
    "the state of a collection is what its class declares; code that keeps further state (module variables, caches, new attributes) is not interpreted and is covered by the bounded half only",
]
STORAGE = "json, os, open, redis, pymongo and zarr clients behave as described in pyvc/storage.py (os.replace is atomic; json.loads inverts json.dumps on JSON values)"
LOCKS = "threading.RLock gives mutual exclusion; operations that run as one critical section of the same lock are linearizable"
BUFFER = "a history of buffered operations is covered by induction over the invariant of the buffer in pyvc/buffer.py: functions are verified for one file next to any number of others; the size is split into the contribution of that file and the rest, which must not change"
CONFLICT = "a write by others changes the size or the modification time (ns) of a file, and does not happen between the comparison of the metadata and the write of the same flush"
HASH = "different contents have different hashes, and no hash is None"
SHARED = "collections of one file are in the same buffered state (mixed states are undefined according to the documentation)"
NUMPY = "numpy arrays and scalars behave as described in pyvc/natives.py (item, tolist, ndim, dtype kinds)"
FAILURES = "failures are exceptions raised by loading, saving, validation and the file system; asynchronous exceptions (KeyboardInterrupt) are not modelled"
MORE = {
    "C01": [STORAGE, BUFFER, NUMPY], "C02": [STORAGE, BUFFER], "C03": [BUFFER, NUMPY], "C04": [STORAGE, BUFFER],
    "C05": [BUFFER, HASH, CONFLICT], "C06": [BUFFER, HASH, SHARED], "C07": [STORAGE, BUFFER, HASH, CONFLICT], "C08": [STORAGE, "a crash keeps the effects of completed system calls in their order"],
    "C09": [STORAGE, LOCKS], "C10": [LOCKS, FAILURES], "C11": [NUMPY, BUFFER], "C12": [STORAGE, NUMPY, BUFFER], "C13": [LOCKS, BUFFER, HASH, SHARED],
    "C14": [LOCKS, BUFFER], "C15": [BUFFER, HASH], "C16": [BUFFER, NUMPY], "C17": [STORAGE, BUFFER], "C18": [NUMPY],
    "C19": [NUMPY, "classes are not registered with the abstract base classes of collections.abc after their values have been classified"],
}  # fmt: skip


def of(prop):
    return GENERAL + MORE[prop]


def coverage(prop, proof, trouble, cmd):
    cover = {"checker_cmd": cmd, "trusted_base": TRUSTED}
    if proof is None:
        return cover | {"obligations": 0, "discharged": 0, "verifier": trouble}
    cover |= {
        "obligations": proof["obligations"], "discharged": proof["discharged"],
        "back_end": "z3" + (f", cvc5 for {proof['cvc5_calls']} queries" if proof["cvc5_calls"] else ""),
        "solver_calls": proof["solver_calls"], "solver_s": proof["solver_s"], "paths": proof["paths"],
        "functions_under_contract": proof["executed"], "contracts_used_at_calls": proof["applied"],
        "refuted": [f"{r['task']}: {r['obligation']}" for r in proof["refuted"]][:30],
        "undecided": [f"{r['task']}: {r['obligation']}" for r in proof["undecided"]][:30],
        "not_interpreted": proof["unsupported"][:20],
    }  # fmt: skip
    return cover
