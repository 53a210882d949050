"""Concrete collection classes of /repo bound to scratch resources.

Every class is paired with an independent way to read and write its resource,
so that checks never trust the code under test to tell them what is stored.
"""
import json
import os
import shutil
import sys
import tempfile
import uuid
import warnings
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from synced_collections import SyncedCollection  # noqa: E402
from synced_collections.backends import collection_json as cj  # noqa: E402

ABSENT = object()


class FakeRedis:
    """String commands of a Redis client, values as bytes."""

    def __init__(self):
        self.store = {"other": b"[0]"}
        self.writes = 0

    def get(self, key):
        return self.store.get(key)

    def exists(self, *keys):
        return sum(key in self.store for key in keys)

    def set(self, key, value, nx=False, xx=False, get=False):
        if isinstance(value, str):
            value = value.encode()
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            value = repr(value).encode()
        if not isinstance(value, bytes):
            raise TypeError("redis values are bytes, str, int or float")
        old = self.store.get(key)
        if (nx and old is not None) or (xx and old is None):
            return old if get else None
        self.writes += 1
        self.store[key] = value
        return old if get else True

    def setnx(self, key, value):
        return bool(self.set(key, value, nx=True))

    def getset(self, key, value):
        return self.set(key, value, get=True)

    def mset(self, mapping):
        for key, value in mapping.items():
            self.set(key, value)
        return True

    def append(self, key, value):
        value = value.encode() if isinstance(value, str) else value
        self.set(key, self.store.get(key, b"") + value)
        return len(self.store[key])

    def delete(self, *keys):
        self.writes += 1
        return sum(self.store.pop(key, None) is not None for key in keys)


class FakeMongo:
    """Commands of a pymongo collection on single documents, kept as real BSON."""

    def __init__(self):
        import bson

        # Documents of others, which differ from the one in use in one place.
        self.decoys = [bson.encode({"u": u, "v": v, "data": [0]}) for u, v in ((0, 2), (1, 3))]
        self.docs = []
        self.writes = 0

    def _find(self, flt):
        import bson

        for docs in (self.decoys, self.docs):
            for i, raw in enumerate(docs):
                doc = bson.decode(raw)
                if all(k in doc and doc[k] == v for k, v in (flt or {}).items()):
                    return docs, i, doc
        return None, None, None

    def _put(self, flt, doc, upsert, docs, i):
        import bson

        raw = bson.encode(doc)
        self.writes += 1
        if docs is not None:
            docs[i] = raw
        elif upsert:
            self.docs.append(raw)

    def find_one(self, flt=None, projection=None):
        doc = self._find(flt)[2]
        if doc is not None and projection:
            names = [n for n in projection if not isinstance(projection, dict) or projection[n]]
            doc = {n: v for n, v in doc.items() if n in names}
        return doc

    def find(self, flt=None, projection=None):
        doc = self.find_one(flt, projection)
        return iter([] if doc is None else [doc])

    def count_documents(self, flt):
        return int(self._find(flt)[2] is not None)

    def replace_one(self, flt, doc, upsert=False):
        docs, i, _ = self._find(flt)
        self._put(flt, doc, upsert, docs, i)

    find_one_and_replace = replace_one

    def update_one(self, flt, change, upsert=False):
        docs, i, doc = self._find(flt)
        doc = dict(flt) if doc is None else doc
        for name, fields in change.items():
            for path, value in fields.items():
                if "." in path or name not in ("$set", "$unset", "$setOnInsert"):
                    raise NotImplementedError(f"{name} of {path} is not simulated")
                if name == "$unset":
                    doc.pop(path, None)
                elif name == "$set" or docs is None:
                    doc[path] = value
        self._put(flt, doc, upsert, docs, i)

    find_one_and_update = update_one

    def insert_one(self, doc):
        self._put({}, doc, True, None, None)

    def delete_one(self, flt):
        docs, i, _ = self._find(flt)
        self.writes += 1
        if docs is not None:
            del docs[i]


class Unreadable:
    """Stored content that cannot be read."""

    def __init__(self, error):
        self.error = error

    def __repr__(self):
        return f"content that cannot be read ({self.error!r})"


class Resource:
    """One backing resource: independent read/write plus a change fingerprint."""

    def __init__(self, family, scratch, wc=False):
        self.family = family
        self.wc = wc
        if family == "json":
            self.path = os.path.join(scratch, uuid.uuid4().hex + ".json")
        elif family == "redis":
            self.client, self.key = FakeRedis(), "k"
        elif family == "mongodb":
            self.client, self.uid = FakeMongo(), {"u": 1, "v": 2}
        elif family == "zarr":
            import zarr

            self.group = zarr.group(store=zarr.MemoryStore())
            self.group["other"] = [0]
        self.others = self._others()

    def _others(self):
        """What is stored next to the resource and belongs to others."""
        if self.family == "redis":
            return {k: v for k, v in self.client.store.items() if k != self.key}
        if self.family == "mongodb":
            return list(self.client.decoys)
        if self.family == "zarr":
            return sorted((k, bytes(v)) for k, v in self.group.store.items() if not k.startswith("n/"))
        return None

    def open(self, cls, **kw):
        if self.family == "json":
            return cls(self.path, self.wc, **kw)
        if self.family == "redis":
            return cls(self.client, self.key, **kw)
        if self.family == "mongodb":
            return cls(self.client, self.uid, **kw)
        return cls(self.group, "n", **kw)

    def read(self, strict=False):
        """Stored content as plain data, or ABSENT, or Unreadable unless strict."""
        try:
            if self._others() != self.others:
                raise ValueError("the data of others was changed")
            return self._read()
        except (ValueError, LookupError, TypeError) as e:
            if strict:
                raise ValueError(str(e)) from None
            return Unreadable(e)

    def _read(self):
        if self.family == "json":
            try:
                with open(self.path, "rb") as f:
                    return json.loads(f.read())
            except FileNotFoundError:
                return ABSENT
        if self.family == "redis":
            raw = self.client.store.get(self.key)
            return ABSENT if raw is None else json.loads(raw)
        if self.family == "mongodb":
            doc = self.client.find_one(self.uid)
            return ABSENT if doc is None else doc["data"]
        try:
            return self.group["n"][0]
        except KeyError:
            return ABSENT

    def write_unnoticed(self, data):
        """Store plain data from outside without a new modification time."""
        try:
            st = os.stat(self.path)
        except (AttributeError, FileNotFoundError):
            return self.write(data)
        self.quiet = not getattr(self, "quiet", False)
        tmp = self.path + ".outside" if self.quiet else self.path
        with open(tmp, "wb") as f:
            f.write(json.dumps(data).encode())
        os.utime(tmp, ns=(st.st_atime_ns, st.st_mtime_ns))
        os.replace(tmp, self.path)

    def text(self, data):
        """The data as written by various other programs."""
        text = json.dumps(data).encode()
        style = zlib.crc32(text) % 3
        if style == 1:
            try:
                return json.dumps(data, ensure_ascii=False, separators=(",", ":")).encode()
            except UnicodeEncodeError:
                pass
        return b"\n" + json.dumps(data, indent=2).encode() + b"\n" if style == 2 else text

    def write(self, data):
        """Store plain data from outside."""
        if self.family == "json":
            # Through a new inode and a strictly later mtime, as another
            # process would, so that the change is visible to metadata checks.
            old = None
            try:
                old = os.stat(self.path).st_mtime_ns
            except FileNotFoundError:
                pass
            tmp = self.path + ".outside"
            with open(tmp, "wb") as f:
                f.write(self.text(data))
            if old is not None and os.stat(tmp).st_mtime_ns <= old:
                os.utime(tmp, ns=(old + 1000, old + 1000))
            os.replace(tmp, self.path)
        elif self.family == "redis":
            self.client.store[self.key] = self.text(data)
        elif self.family == "mongodb":
            self.client.replace_one(self.uid, {**self.uid, "data": data}, True)
        else:
            import numcodecs
            import numpy as np

            ds = self.group.require_dataset(
                "n", shape=1, dtype="object", object_codec=numcodecs.JSON()
            )
            a = np.empty(1, dtype=object)
            a[0] = data
            ds[:] = a

    def remove(self):
        if self.family == "json":
            try:
                os.unlink(self.path)
            except FileNotFoundError:
                pass
        elif self.family == "redis":
            self.client.store.pop(self.key, None)
        elif self.family == "mongodb":
            self.client.docs = []
        else:
            if "n" in self.group:
                del self.group["n"]

    def fingerprint(self):
        """Changes whenever anything is written (content, inode, mtime)."""
        if self.family == "json":
            try:
                st = os.stat(self.path)
                with open(self.path, "rb") as f:
                    return (f.read(), st.st_ino, st.st_mtime_ns, st.st_size)
            except FileNotFoundError:
                return None
        if self.family == "redis":
            return (self.client.writes, self.client.store.get(self.key))
        if self.family == "mongodb":
            return (self.client.writes, tuple(self.client.docs))
        return tuple(sorted((k, bytes(v)) for k, v in self.group.store.items()))


JSON_PAIRS = [
    (cj.JSONDict, cj.JSONList),
    (cj.BufferedJSONDict, cj.BufferedJSONList),
    (cj.MemoryBufferedJSONDict, cj.MemoryBufferedJSONList),
    (cj.JSONAttrDict, cj.JSONAttrList),
    (cj.BufferedJSONAttrDict, cj.BufferedJSONAttrList),
    (cj.MemoryBufferedJSONAttrDict, cj.MemoryBufferedJSONAttrList),
]


def other_pairs():
    out = []
    from synced_collections.backends import collection_redis as cr

    out.append(("redis", cr.RedisDict, cr.RedisList))
    try:
        import bson  # noqa: F401

        from synced_collections.backends import collection_mongodb as cm

        out.append(("mongodb", cm.MongoDBDict, cm.MongoDBList))
    except ImportError:
        pass
    try:
        import zarr  # noqa: F401

        from synced_collections.backends import collection_zarr as cz

        out.append(("zarr", cz.ZarrDict, cz.ZarrList))
    except ImportError:
        pass
    return out


def all_pairs(json_only=False):
    pairs = [("json", d, l) for d, l in JSON_PAIRS]
    if not json_only:
        pairs += other_pairs()
    focus = set(os.environ.get("VERIF_FOCUS", "").split(","))
    return [p for p in pairs if p[1].__name__ in focus or p[2].__name__ in focus] or pairs


_BY_NAME = {}


def pair(name):
    """The (dict, list) classes of the family that a class belongs to."""
    if not _BY_NAME:
        for d, l in JSON_PAIRS + [p[1:] for p in other_pairs()]:
            _BY_NAME[d.__name__] = _BY_NAME[l.__name__] = (d, l)
    return _BY_NAME[name]


def is_attr(cls):
    return "Attr" in cls.__name__


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=base)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def plain(x):
    """Plain copy of a value that may contain synced collections, read without loading."""
    if isinstance(x, SyncedCollection):
        return plain(x._to_base())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(a, b):
    """Equality with the same JSON type at every leaf."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and set(a) == set(b)
            and all(same(a[k], b[k]) for k in a)
        )
    if isinstance(a, list) or isinstance(b, list):
        return (
            isinstance(a, list)
            and isinstance(b, list)
            and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b))
        )
    if a is ABSENT or b is ABSENT:
        return a is b
    if a is None or b is None:
        return a is b
    return jtype(a) == jtype(b) and a == b


def jtype(x):
    for t in (bool, int, float, str):
        if isinstance(x, t):
            return t
    return type(x)
