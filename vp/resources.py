"""Backing resources that can be read and written independently of the library."""

import copy
import json
import os

from . import boot
from .values import clone



class _Missing:
    def __repr__(self):
        return "<no resource>"


MISSING = _Missing()


class FakeRedis:
    """The part of a redis client that stores values under keys."""

    def __init__(self):
        self.store = {}
        self.writes = 0

    @staticmethod
    def _k(key):
        return key.encode() if isinstance(key, str) else bytes(key)

    @staticmethod
    def _v(value):
        if isinstance(value, (bytes, bytearray, memoryview)):
            return bytes(value)
        if isinstance(value, str):
            return value.encode()
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            return repr(value).encode()
        raise TypeError("Invalid input of type: " + type(value).__name__)

    def get(self, key):
        return self.store.get(self._k(key))

    __getitem__ = get

    def mget(self, keys, *args):
        return [self.get(k) for k in ([keys] if isinstance(keys, (str, bytes)) else keys)]

    def set(self, key, value, ex=None, px=None, nx=False, xx=False, **kw):
        k, v = self._k(key), self._v(value)
        if (nx and k in self.store) or (xx and k not in self.store):
            return None
        self.writes += 1
        self.store[k] = v
        return True

    def __setitem__(self, key, value):
        self.set(key, value)

    def setnx(self, key, value):
        return bool(self.set(key, value, nx=True))

    def mset(self, mapping):
        for k, v in mapping.items():
            self.set(k, v)
        return True

    def getset(self, key, value):
        old = self.get(key)
        self.set(key, value)
        return old

    def exists(self, *keys):
        return sum(self._k(k) in self.store for k in keys)

    def __contains__(self, key):
        return self._k(key) in self.store

    def strlen(self, key):
        return len(self.get(key) or b"")

    def type(self, key):
        return b"string" if self.exists(key) else b"none"

    def delete(self, *keys):
        self.writes += 1
        return sum(self.store.pop(self._k(k), None) is not None for k in keys)

    def keys(self, pattern="*"):
        return list(self.store)

    def ping(self):
        return True

    def pipeline(self, *args, **kw):
        return FakePipeline(self)


class FakePipeline:
    def __init__(self, client):
        self.client = client
        self.queue = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.queue = []

    def watch(self, *keys):
        pass

    def multi(self):
        pass

    def execute(self):
        result = [getattr(self.client, n)(*a, **k) for n, a, k in self.queue]
        self.queue = []
        return result

    def __getattr__(self, name):
        def call(*a, **k):
            self.queue.append((name, a, k))
            return self

        return call


class _Result:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.acknowledged = True


class FakeMongo:
    """A MongoDB collection keeping BSON documents."""

    def __init__(self):
        self.docs = []  # BSON-encoded
        self.writes = 0
        self.serial = 0
        self.name = "fake"

    @staticmethod
    def _enc(doc):
        import bson

        return bson.encode(doc)

    @staticmethod
    def _dec(blob):
        import bson

        return bson.decode(blob)

    def _find(self, flt):
        if flt is not None and not isinstance(flt, dict):
            flt = {"_id": flt}
        flt = self._dec(self._enc(flt or {}))
        for i, blob in enumerate(self.docs):
            doc = self._dec(blob)
            if all(k in doc and doc[k] == v for k, v in flt.items()):
                return i, doc
        return None, None

    def find_one(self, filter=None, projection=None, *args, **kw):
        doc = self._find(filter)[1]
        if doc is not None and projection:
            names = projection if not isinstance(projection, dict) else [k for k, v in projection.items() if v]
            if names:
                doc = {k: v for k, v in doc.items() if k in names or k == "_id"}
        return doc

    def find(self, filter=None, *args, **kw):
        doc = self.find_one(filter)
        return iter([] if doc is None else [doc])

    def count_documents(self, filter, *args, **kw):
        return int(self._find(filter)[0] is not None)

    def _new_id(self):
        self.serial += 1
        return self.serial

    def insert_one(self, document, *args, **kw):
        if "_id" not in document:
            document["_id"] = self._new_id()
        blob = self._enc(document)
        self.writes += 1
        self.docs.append(blob)
        return _Result(inserted_id=document["_id"])

    def replace_one(self, filter, replacement, upsert=False, *args, **kw):
        i, old = self._find(filter)
        doc = dict(replacement)
        if i is None:
            blob = self._enc(doc if "_id" in doc else {"_id": self._new_id(), **doc})
            if not upsert:
                return _Result(matched_count=0, modified_count=0, upserted_id=None)
            self.writes += 1
            self.docs.append(blob)
            return _Result(matched_count=0, modified_count=0, upserted_id=self.serial)
        blob = self._enc(doc if "_id" in doc else {"_id": old["_id"], **doc})
        self.writes += 1
        self.docs[i] = blob
        return _Result(matched_count=1, modified_count=1, upserted_id=None)

    def find_one_and_replace(self, filter, replacement, upsert=False, **kw):
        old = self.find_one(filter)
        self.replace_one(filter, replacement, upsert)
        return old

    def update_one(self, filter, update, upsert=False, *args, **kw):
        i, old = self._find(filter)
        doc = dict(old) if old is not None else dict(filter)
        for op, fields in update.items():
            if op == "$set":
                doc.update(fields)
            elif op == "$unset":
                for f in fields:
                    doc.pop(f, None)
            elif op == "$setOnInsert":
                if old is None:
                    doc.update(fields)
            else:
                raise NotImplementedError(op)
        return self.replace_one(filter, doc, upsert)

    def find_one_and_update(self, filter, update, upsert=False, **kw):
        old = self.find_one(filter)
        self.update_one(filter, update, upsert)
        return old

    def delete_one(self, filter, *args, **kw):
        i, _ = self._find(filter)
        self.writes += 1
        if i is not None:
            del self.docs[i]
        return _Result(deleted_count=int(i is not None))

    delete_many = delete_one

    def with_options(self, *args, **kw):
        return self


class Resource:
    """One backing resource together with the means to bind collections to it."""

    def __init__(self, cls_name, directory=None, config=None, name="r"):
        self.cls_name = cls_name
        self.kind = "list" if cls_name.endswith("List") else "dict"
        self.config = config or {}
        self.name = name

    def empty(self):
        return [] if self.kind == "list" else {}

    @property
    def cls(self):
        return boot.lib().cls[self.cls_name]

    def content(self):
        """The content as seen by a reader: a missing resource is empty."""
        data = self.read()
        return self.empty() if data is MISSING else data


# Unusual names of files. The first one stands for a name relative to the current directory.
FILENAMES = [None, "{}", ".{}", "{} ü 日.json", "-{}.a.b", "{}%s{{0}}'\"[*]?", "./{}.json", "{}.d/f.json"]


class JSONResource(Resource):
    def __init__(self, cls_name, directory, config=None, name="r"):
        super().__init__(cls_name, directory, config, name)
        pattern = FILENAMES[self.config["fn"] - 1] if self.config.get("fn") else "{}.json"
        self.given = os.path.join(directory, (pattern or "{}.json").format(name))
        self.path = os.path.normpath(self.given)
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        if pattern is None:
            if os.path.dirname(directory) != os.path.dirname(os.getcwd()):
                os.chdir(directory)
            self.given = os.path.relpath(self.path)

    def open(self, **kw):
        return self.cls(filename=self.given, write_concern=bool(self.config.get("wc")), **kw)

    def raw(self):
        try:
            with open(self.path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def read(self):
        raw = self.raw()
        return MISSING if raw is None else json.loads(raw)

    def write(self, data, how=0):
        """Write like an outside writer: in place or by replacing the file, in different formats."""
        blob = json.dumps(data, indent=1 if how & 2 else None)
        if how and how % 3 == 0:
            try:
                blob = json.dumps(data, ensure_ascii=False, separators=(",", ":"))
                blob.encode()
            except UnicodeEncodeError:
                blob = json.dumps(data)
        if how and how % 5 == 0:
            blob = f"\n\t{blob} \r\n"
        blob = blob.encode()
        if how & 1:
            tmp = self.path + ".outside"
            with open(tmp, "wb") as f:
                f.write(blob)
            os.replace(tmp, self.path)
        else:
            with open(self.path, "wb") as f:
                f.write(blob)

    def delete(self):
        os.remove(self.path)

    def fingerprint(self):
        """Changes whenever the file is written."""
        try:
            s = os.stat(self.path)
        except FileNotFoundError:
            return None
        return (s.st_ino, s.st_mtime_ns, s.st_size, self.raw())

    def backdate(self):
        """Make sure that any later write changes the modification time."""
        if os.path.exists(self.path):
            os.utime(self.path, ns=(10**18, 10**18))


class RedisResource(Resource):
    def __init__(self, cls_name, directory=None, config=None, name="r"):
        super().__init__(cls_name, directory, config, name)
        self.client = FakeRedis()

    def open(self, **kw):
        return self.cls(client=self.client, key=self.name, **kw)

    def read(self):
        blob = self.client.store.get(self.name.encode())
        return MISSING if blob is None else json.loads(blob)

    def delete(self):
        del self.client.store[self.name.encode()]

    def write(self, data, how=0):
        self.client.store[self.name.encode()] = json.dumps(data).encode()

    def fingerprint(self):
        return (self.client.writes, dict(self.client.store))

    def backdate(self):
        pass


class MongoResource(Resource):
    def __init__(self, cls_name, directory=None, config=None, name="r"):
        super().__init__(cls_name, directory, config, name)
        self.client = FakeMongo()
        self.uid = {"name": name}

    def open(self, **kw):
        return self.cls(collection=self.client, uid=dict(self.uid), **kw)

    def read(self):
        i, doc = self.client._find(self.uid)
        return MISSING if doc is None else doc["data"]

    def delete(self):
        self.client.delete_one(self.uid)

    def write(self, data, how=0):
        n = self.client.writes
        self.client.replace_one(self.uid, {**self.uid, "data": clone(data)}, True)
        self.client.writes = n

    def fingerprint(self):
        return (self.client.writes, list(self.client.docs))

    def backdate(self):
        pass


class CountingStore(dict):
    """A zarr store that counts writes."""

    writes = 0

    def __setitem__(self, k, v):
        CountingStore.writes += 1
        super().__setitem__(k, v)

    def __delitem__(self, k):
        CountingStore.writes += 1
        super().__delitem__(k)


class ZarrResource(Resource):
    def __init__(self, cls_name, directory=None, config=None, name="r"):
        super().__init__(cls_name, directory, config, name)
        import zarr

        self.store = CountingStore()
        self.group = zarr.group(store=zarr.storage.KVStore(self.store))

    def codec(self):
        import numcodecs

        numcodecs.pickles.ALLOW_UNSAFE_PICKLE_DECODE = True
        return [numcodecs.JSON, numcodecs.Pickle, lambda: numcodecs.JSON(indent=2)][self.config.get("codec", 0)]()

    def open(self, **kw):
        if "codec" in self.config:
            kw["codec"] = self.codec()
        return self.cls(group=self.group, name=self.name, **kw)

    def read(self):
        import zarr

        group = zarr.open_group(store=zarr.storage.KVStore(self.store), mode="r")
        if self.name not in group:
            return MISSING
        return group[self.name][0]

    def delete(self):
        del self.group[self.name]

    def write(self, data, how=0):
        n = CountingStore.writes
        ds = self.group.require_dataset(
            self.name, overwrite=True, shape=1, dtype="object", object_codec=self.codec()
        )
        ds[0] = clone(data)
        CountingStore.writes = n

    def fingerprint(self):
        return (CountingStore.writes, copy.copy(dict(self.store)))

    def backdate(self):
        pass


def make(cls_name, directory, config=None, name="r"):
    if "JSON" in cls_name:
        return JSONResource(cls_name, directory, config, name)
    for prefix, cls in (("Redis", RedisResource), ("Mongo", MongoResource), ("Zarr", ZarrResource)):
        if cls_name.startswith(prefix):
            return cls(cls_name, directory, config, name)
    raise ValueError(cls_name)


def is_attr(cls_name):
    return "Attr" in cls_name


class threading_config:
    """Temporarily disable multithreading support of all JSON classes."""

    def __init__(self, config):
        self.off = bool((config or {}).get("mt_off"))

    def __enter__(self):
        if self.off:
            lib = boot.lib()
            for name in boot.JSON_CLASSES:
                lib.cls[name].disable_multithreading()

    def __exit__(self, *exc):
        if self.off:
            lib = boot.lib()
            for name in boot.JSON_CLASSES:
                lib.cls[name].enable_multithreading()
