"""Import the library under test from the repository's working tree."""

import importlib
import importlib.machinery
import os
import sys
import types

REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
PKG = "synced_collections"
LIB_DIR = os.path.join(REPO, PKG)
try:
    import bson  # noqa: F401
    import numpy  # noqa: F401
    import zarr  # noqa: F401
except ImportError:
    pass

# From here on no byte code left behind by earlier runs is used, so the code that
# runs is always the code in the working tree.
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

_codes = {}
_get_code = importlib.machinery.SourceFileLoader.get_code


def _cached_code(self, fullname):
    """Compile every module of the library only once per process."""
    if not fullname.startswith(PKG):
        return _get_code(self, fullname)
    if fullname not in _codes:
        _codes[fullname] = _get_code(self, fullname)
    return _codes[fullname]


importlib.machinery.SourceFileLoader.get_code = _cached_code


def codes():
    """The code objects of all imported modules of the library."""
    return list(_codes.values())


JSON_CLASSES = (
    "JSONDict",
    "JSONList",
    "JSONAttrDict",
    "JSONAttrList",
    "BufferedJSONDict",
    "BufferedJSONList",
    "BufferedJSONAttrDict",
    "BufferedJSONAttrList",
    "MemoryBufferedJSONDict",
    "MemoryBufferedJSONList",
    "MemoryBufferedJSONAttrDict",
    "MemoryBufferedJSONAttrList",
)
OTHER_CLASSES = (
    "RedisDict",
    "RedisList",
    "MongoDBDict",
    "MongoDBList",
    "ZarrDict",
    "ZarrList",
)
ALL_CLASSES = JSON_CLASSES + OTHER_CLASSES
BUFFERED_CLASSES = JSON_CLASSES[4:]

_lib = None


def _load():
    ns = types.SimpleNamespace()
    imp = importlib.import_module
    ns.pkg = imp(PKG)
    where = os.path.realpath(ns.pkg.__file__)
    if not where.startswith(LIB_DIR + os.sep):
        raise RuntimeError(f"imported {where}, expected {LIB_DIR}")
    ns.SyncedCollection = ns.pkg.SyncedCollection
    ns.SyncedDict = ns.pkg.SyncedDict
    ns.SyncedList = ns.pkg.SyncedList
    ns.errors = imp(PKG + ".errors")
    for mod, names in (
        ("collection_json", JSON_CLASSES),
        ("collection_redis", ("RedisDict", "RedisList")),
        ("collection_mongodb", ("MongoDBDict", "MongoDBList")),
        ("collection_zarr", ("ZarrDict", "ZarrList")),
    ):
        m = imp(f"{PKG}.backends.{mod}")
        for name in names:
            setattr(ns, name, getattr(m, name))
    ns.BufferedError = ns.errors.BufferedError
    ns.MetadataError = ns.errors.MetadataError
    ns.cls = {name: getattr(ns, name) for name in ALL_CLASSES}
    return ns


def lib():
    """Return the classes of the library."""
    global _lib
    if _lib is None:
        _lib = _load()
    return _lib


def reload():
    """Import the library anew, which resets all of its class-level state."""
    global _lib
    for name in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[name]
    _lib = _load()
    return _lib


def is_lib_file(filename):
    return filename.startswith(LIB_DIR + os.sep)
