"""C19: classification does not depend on history."""

import array
import collections
import decimal
import enum
import functools
import gc
import importlib
import json
import os
import types
import weakref

import numpy

from .. import boot, engine
from ..engine import Scenario, fail
from ..resources import FakeRedis, FakeMongo

LEVEL = "exploration"
RULE = (
    "The outcome of an operation (accepted or which exception, and the stored form with the types of all leaves and nodes) on a "
    "probe value is compared between a freshly imported library and one that has processed a history before. "
    "Pairs: for every ordered pair of pool values, all operations with the first one are the history and all "
    "operations with the second one are probed. Histories: random sequences of operations with random values, then all "
    "operations with a random probe. Non-trivial: the history contains a value of another type or classification than the probe."
)
ASSUMPTIONS = [
    "Importing all modules of the library anew stands for a fresh process; its state is all at module and class level.",
    "Metaclasses that make different types compare equal are not tried.",
]
BUDGET = {"quick": 60, "thorough": 600}
TECHNIQUE = "differential testing of operations after generated histories against a freshly imported library"


# -- the pool of values -------------------------------------------------------------------


class SubDict(dict):
    pass


class SubList(list):
    pass


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubTuple(tuple):
    pass


class Color(enum.Enum):
    RED = 1


class Number(enum.IntEnum):
    ONE = 1


class Word(str, enum.Enum):
    W = "w"


Point = collections.namedtuple("Point", "x y")


class OwnMapping(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class OwnSequence(collections.abc.Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        return self.d[i]

    def __len__(self):
        return len(self.d)


class OwnMutable(collections.abc.MutableSequence):
    def __init__(self, d):
        self.d = list(d)

    def __getitem__(self, i):
        return self.d[i]

    def __setitem__(self, i, v):
        self.d[i] = v

    def __delitem__(self, i):
        del self.d[i]

    def __len__(self):
        return len(self.d)

    def insert(self, i, v):
        self.d.insert(i, v)


class Both(OwnMapping, collections.abc.Sequence):
    """A mapping that is a sequence as well."""

    def __contains__(self, x):
        return x in self.d

    def __reversed__(self):
        return reversed(list(self.d))


class StrMapping(str, collections.abc.Mapping):
    """A mapping that is a string as well."""

    def __getitem__(self, k):
        return {"a": 1}[k]

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1

    def __contains__(self, x):
        return x == "a"

    keys = collections.abc.Mapping.keys
    items = collections.abc.Mapping.items
    values = collections.abc.Mapping.values
    get = collections.abc.Mapping.get
    __hash__ = str.__hash__
    __eq__ = str.__eq__


class IntSequence(int, collections.abc.Sequence):
    """A sequence that is an integer as well."""

    def __getitem__(self, i):
        return [1, 2][i]

    def __len__(self):
        return 2

    __hash__ = int.__hash__
    __eq__ = int.__eq__


class ListMapping(list, collections.abc.MutableMapping):
    """A list that is a mapping as well."""

    def keys(self):
        return ["a"]

    def items(self):
        return [("a", 1)]

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1

    def __getitem__(self, k):
        return 1

    def __contains__(self, k):
        return k == "a"


class OnlyCollection(collections.abc.Collection):
    def __init__(self):
        self.d = [1]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return 1

    def __contains__(self, x):
        return x in self.d


class Duck:
    """Quacks like a mapping without being one."""

    def keys(self):
        return ["a"]

    def items(self):
        return [("a", 1)]

    def __getitem__(self, k):
        return 1

    def __len__(self):
        return 1

    def __iter__(self):
        return iter(["a"])


class Plain:
    pass


class HasData:
    def __init__(self, data):
        self._data = data


class ListAsInt(list):
    """A list that pretends to be a number."""

    __class__ = property(lambda self: int)


class DictAsList(dict):
    """A dict that pretends to be a list."""

    __class__ = property(lambda self: list)


class IntAsPlain(int):
    """A number that pretends to be something else."""

    __class__ = property(lambda self: Plain)


class Chameleon:
    """Reports the class of what it stands for."""

    def __init__(self, target):
        self.target = target

    @property
    def __class__(self):
        return type(self.target)

    def __getattr__(self, name):
        return getattr(self.target, name)

    def __getitem__(self, k):
        return self.target[k]

    def __iter__(self):
        return iter(self.target)

    def __len__(self):
        return len(self.target)

    def __contains__(self, x):
        return x in self.target

    def __bool__(self):
        return bool(self.target)


class Switch:
    pass


class SwitchDict(Switch):
    def keys(self):
        return ["a"]


class SubArray(numpy.ndarray):
    pass


def same_names():
    """Three classes that only differ in their bases."""

    class Same(OwnMapping):
        pass

    a = Same

    class Same(OwnSequence):  # noqa: F811
        pass

    b = Same

    class Same:  # noqa: F811
        pass

    return a, b, Same


SAME = same_names()
Mapping_ = type("Twin", (dict,), {})
Sequence_ = type("Twin", (list,), {})
Scalar_ = type("Twin", (int,), {})
Object_ = type("Twin", (), {})

_alive = collections.deque(maxlen=200)


def proxied(x):
    _alive.append(x)
    return weakref.proxy(x)


def obj_array(*xs):
    a = numpy.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def obj0(x):
    a = numpy.empty((), dtype=object)
    a[()] = x
    return a


def switched(x, cls):
    x = Switch()
    x.__class__ = cls
    return x


def dyn(base, *args):
    """An instance of a class that exists only once."""
    return type("Dynamic", (base,), {})(*args)


def synced(name, data):
    lib = boot.lib()
    if "Redis" in name:
        o = lib.cls[name](client=FakeRedis(), key="k")
    else:
        o = lib.cls[name](collection=FakeMongo(), uid={"n": 1})
    o.reset(data)
    return o


POOL = {
    "none": lambda: None,
    "true": lambda: True,
    "false": lambda: False,
    "0": lambda: 0,
    "1": lambda: 1,
    "1.0": lambda: 1.0,
    "0.5": lambda: 0.5,
    "-1": lambda: -1,
    "big": lambda: 2**70,
    "0.0": lambda: 0.0,
    "inf": lambda: float("inf"),
    "-inf": lambda: float("-inf"),
    "nan": lambda: float("nan"),
    "1e308": lambda: 1e308,
    "str": lambda: "text",
    "empty str": lambda: "",
    "dot": lambda: "a.b",
    "space": lambda: " ",
    "long str": lambda: "x" * 5000,
    "unicode": lambda: "é\U0001f600",
    "surrogate": lambda: "\ud800",
    "dict": lambda: {"a": 1},
    "empty dict": dict,
    "dict list": lambda: {"a": [1, {"b": (2,)}]},
    "int key": lambda: {1: 2},
    "dot key": lambda: {"a.b": 1},
    "none key": lambda: {None: 1},
    "list": lambda: [1, 2],
    "empty list": list,
    "long list": lambda: list(range(300)),
    "none list": lambda: [None],
    "wide dict": lambda: {f"k{i}": i for i in range(300)},
    "deep": lambda: functools.reduce(lambda y, i: [y] if i % 2 else {"w": y}, range(20), 1),
    "empty tuple": tuple,
    "list pairs": lambda: [["a", 1], ("b", 2)],
    "tuple": lambda: (1, [2]),
    "tuple pair": lambda: (("a", 1),),
    "set": lambda: {1},
    "frozenset": lambda: frozenset([1]),
    "bytes": lambda: b"ab",
    "empty bytes": bytes,
    "bytearray": lambda: bytearray(b"ab"),
    "memoryview": lambda: memoryview(b"ab"),
    "range": lambda: range(2),
    "array": lambda: array.array("i", [1, 2]),
    "complex": lambda: 1j,
    "decimal": lambda: decimal.Decimal(1),
    "object": Plain,
    "type": lambda: dict,
    "function": lambda: len,
    "ellipsis": lambda: ...,
    "generator": lambda: (x for x in [1]),
    "iterator": lambda: iter([("a", 1)]),
    "keys": lambda: {"a": 1}.keys(),
    "values": lambda: {"a": 1}.values(),
    "items": lambda: {"a": 1}.items(),
    "proxytype": lambda: types.MappingProxyType({"a": 1}),
    "chainmap": lambda: collections.ChainMap({"a": 1}),
    "counter": lambda: collections.Counter("a"),
    "odict": lambda: collections.OrderedDict(a=1),
    "ddict": lambda: collections.defaultdict(list, a=1),
    "userdict": lambda: collections.UserDict(a=1),
    "userlist": lambda: collections.UserList([1]),
    "userstring": lambda: collections.UserString("a"),
    "deque": lambda: collections.deque([1]),
    "subdict": lambda: SubDict(a=1),
    "sublist": lambda: SubList([1]),
    "substr": lambda: SubStr("a"),
    "subint": lambda: SubInt(1),
    "subfloat": lambda: SubFloat(1.5),
    "subtuple": lambda: SubTuple([1]),
    "namedtuple": lambda: Point(1, 2),
    "enum": lambda: Color.RED,
    "intenum": lambda: Number.ONE,
    "strenum": lambda: Word.W,
    "mapping": lambda: OwnMapping({"a": 1}),
    "empty mapping": lambda: OwnMapping({}),
    "empty sequence": lambda: OwnSequence([]),
    "empty subdict": SubDict,
    "empty sublist": SubList,
    "mapping bad": lambda: OwnMapping({1: 1}),
    "sequence": lambda: OwnSequence([1]),
    "mutable": lambda: OwnMutable([1]),
    "both": lambda: Both({"a": 1}),
    "strmapping": lambda: StrMapping("s"),
    "intsequence": lambda: IntSequence(7),
    "listmapping": lambda: ListMapping([5]),
    "collection": OnlyCollection,
    "duck": Duck,
    "has dict": lambda: HasData({"a": 1}),
    "has list": lambda: HasData([1]),
    "list as int": lambda: ListAsInt([1]),
    "dict as list": lambda: DictAsList(a=1),
    "int as object": lambda: IntAsPlain(3),
    "ch dict": lambda: Chameleon({"a": 1}),
    "ch list": lambda: Chameleon([1]),
    "ch int": lambda: Chameleon(3),
    "ch str": lambda: Chameleon("s"),
    "ch none": lambda: Chameleon(None),
    "ch object": lambda: Chameleon(Plain()),
    "ch mapping": lambda: Chameleon(OwnMapping({"a": 1})),
    "ch array": lambda: Chameleon(numpy.array([1])),
    "wp dict": lambda: proxied(SubDict(a=1)),
    "wp list": lambda: proxied(SubList([1])),
    "wp mapping": lambda: proxied(OwnMapping({"a": 1})),
    "wp sequence": lambda: proxied(OwnSequence([1])),
    "wp object": lambda: proxied(Plain()),
    "wp float": lambda: proxied(SubFloat(2)) if hasattr(SubFloat, "__weakref__") else None,
    "sw plain": lambda: switched(None, Switch),
    "sw dict": lambda: switched(None, SwitchDict),
    "same mapping": lambda: SAME[0]({"a": 1}),
    "same sequence": lambda: SAME[1]([1]),
    "same object": lambda: SAME[2](),
    "twin dict": lambda: Mapping_(a=1),
    "twin list": lambda: Sequence_([1]),
    "twin int": lambda: Scalar_(1),
    "twin object": Object_,
    "dyn dict": lambda: dyn(dict, {"a": 1}),
    "dyn list": lambda: dyn(list, [1]),
    "dyn str": lambda: dyn(str, "s"),
    "dyn object": lambda: dyn(object),
    "dyn float": lambda: dyn(float, 1.5),
    "np 0d": lambda: numpy.array(1),
    "np 0d float": lambda: numpy.array(1.5),
    "np 0d bool": lambda: numpy.array(True),
    "np 0d str": lambda: numpy.array("s"),
    "np 0d complex": lambda: numpy.array(1j),
    "np 0d object": lambda: obj0(Plain()),
    "np 0d dict": lambda: obj0({"a": 1}),
    "np 1d": lambda: numpy.array([1, 2]),
    "np 1d empty": lambda: numpy.array([]),
    "np 2d": lambda: numpy.array([[1], [2]]),
    "np 1d str": lambda: numpy.array(["s"]),
    "np 1d complex": lambda: numpy.array([1j]),
    "np 1d object": lambda: obj_array(Plain()),
    "np 1d dict": lambda: obj_array({"a": 1}),
    "np 1d baddict": lambda: obj_array({1: 1}),
    "np 1d date": lambda: numpy.array(["2020"], dtype="datetime64[Y]"),
    "np 0d date": lambda: numpy.array("2020", dtype="datetime64[Y]"),
    "np 1d long": lambda: numpy.array([1], dtype=numpy.longdouble),
    "np 0d long": lambda: numpy.array(1, dtype=numpy.longdouble),
    "np sub 0d": lambda: numpy.array(1).view(SubArray),
    "np sub 1d": lambda: numpy.array([1, 2]).view(SubArray),
    "np matrix": lambda: numpy.matrix([[1, 2]]),
    "np masked 0d": lambda: numpy.ma.array(1),
    "np masked 1d": lambda: numpy.ma.array([1, 2], mask=[0, 1]),
    "np rec": lambda: numpy.rec.array([(1, 2.0)], dtype=[("x", int), ("y", float)]),
    "np struct 0d": lambda: numpy.array((1, 2.0), dtype=[("x", int), ("y", float)]),
    "np 0d nan": lambda: numpy.array(float("nan")),
    "np 1d nan": lambda: numpy.array([float("nan")]),
    "np 2d empty": lambda: numpy.empty((0, 3)),
    "np 2d rows": lambda: numpy.empty((2, 0)),
    "np 1d bool": lambda: numpy.array([True]),
    "np int64": lambda: numpy.int64(1),
    "np nan": lambda: numpy.float64("nan"),
    "np inf": lambda: numpy.float64("inf"),
    "np 0": lambda: numpy.int64(0),
    "np false": lambda: numpy.bool_(False),
    "np uint8": lambda: numpy.uint8(1),
    "np float64": lambda: numpy.float64(1.5),
    "np float32": lambda: numpy.float32(1.5),
    "np longdouble": lambda: numpy.longdouble(1),
    "np complex": lambda: numpy.complex128(1),
    "np bool": lambda: numpy.bool_(True),
    "np str": lambda: numpy.str_("s"),
    "np bytes": lambda: numpy.bytes_(b"s"),
    "np datetime": lambda: numpy.datetime64("2020"),
    "np void": lambda: numpy.void(b"ab"),
    "np dtype": lambda: numpy.dtype(int),
    "synced dict": lambda: synced("RedisDict", {"a": [1]}),
    "synced list": lambda: synced("RedisList", [1, {"a": 1}]),
    "synced child": lambda: synced("MongoDBDict", {"a": {"b": 1}})["a"],
    "nested mapping": lambda: {"a": OwnMapping({"b": [1]})},
    "nested array": lambda: [numpy.array([1]), numpy.array(2)],
    "nested object": lambda: {"a": [Plain()]},
    "nested proxy": lambda: [Chameleon({"a": 1}), Chameleon([1])],
}
NAMES = list(POOL)


# -- operations ----------------------------------------------------------------------------


def describe(x, depth=0):
    """A comparable description without addresses."""
    lib = boot.lib()
    t = type(x)
    if isinstance(x, lib.SyncedDict) and t.__name__ in lib.cls:
        return [t.__name__, describe(x(), depth + 1)]
    if isinstance(x, lib.SyncedList) and t.__name__ in lib.cls:
        return [t.__name__, describe(x(), depth + 1)]
    if t is dict:
        return ["dict", [[describe(k), describe(v, depth + 1)] for k, v in x.items()]]
    if t is list or t is tuple:
        return [t.__name__, [describe(v, depth + 1) for v in x]]
    if x is None or t in (bool, int, float, str, bytes):
        return [t.__name__, repr(x)]
    return [t.__name__]


class Opener:
    def __init__(self, name):
        self.name = name

    def new(self, initial=None, **kw):
        lib = boot.lib()
        name = self.name
        if "Redis" in name:
            client = FakeRedis()
            if initial is not None:
                client.store[b"k"] = json.dumps(initial).encode()
            return lib.cls[name](client=client, key="k", **kw)
        path = os.path.join(scratch(), "c19.json")
        if initial is not None:
            with open(path, "w") as f:
                json.dump(initial, f)
        elif os.path.exists(path):
            os.remove(path)
        return lib.cls[name](filename=path, **kw)


_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = engine.fresh_dir()
    return _dir


def stored(c):
    parts = [describe(c())]
    if isinstance(c, boot.lib().SyncedDict):
        parts.append([type(c[k]).__name__ for k in list(c)])
    else:
        parts.append([type(v).__name__ for v in c])
    return parts


def module(name):
    return importlib.import_module(boot.PKG + "." + name)


def op_validator(name, where="validators"):
    return lambda x: getattr(module(where), name)(x)


def dict_op(cls_name, initial, fn):
    def run(x):
        c = Opener(cls_name).new(initial)
        fn(c, x)
        return stored(c)

    return run


def setter(c, x):
    c["k"] = x


def list_setter(c, x):
    c[0] = x


def slice_setter(c, x):
    c[0:1] = x


def key_setter(c, x):
    c[x] = 1


def iadd(c, x):
    c += x


def remover(c, x):
    try:
        c.remove(x)
    except ValueError:
        c.append("not found")


def encoder(x):
    return json.dumps(x, cls=module("utils").SyncedCollectionJSONEncoder)


def compare(c, x):
    r = c == x
    c["result"] = bool(r) if not isinstance(r, numpy.ndarray) else "array"


OPS = {
    "json_format_validator": op_validator("json_format_validator"),
    "no_dot_in_key": op_validator("no_dot_in_key"),
    "require_string_key": op_validator("require_string_key"),
    "json_attr_dict_validator": op_validator("json_attr_dict_validator", "backends.collection_json"),
    "is dict": lambda x: boot.lib().SyncedDict.is_base_type(x),
    "is list": lambda x: boot.lib().SyncedList.is_base_type(x),
    "encode": encoder,
    "eq": dict_op("RedisDict", {"a": 1}, compare),
    "attr set": dict_op("JSONAttrDict", {}, setter),
    "attr append": dict_op("JSONAttrList", [], lambda c, x: c.append(x)),
    "file update": dict_op("JSONDict", {"k": {"old": 1}}, lambda c, x: c.update({"k": x})),
    "buffered set": dict_op("BufferedJSONDict", {"k": 1}, setter),
    "setdefault": dict_op("RedisDict", {}, lambda c, x: c.setdefault("k", x)),
    "set": dict_op("RedisDict", {}, setter),
    "update new": dict_op("RedisDict", {}, lambda c, x: c.update({"k": x})),
    "update dict": dict_op("RedisDict", {"k": {"old": 1}}, lambda c, x: c.update({"k": x})),
    "update list": dict_op("RedisDict", {"k": [1, 2, 3]}, lambda c, x: c.update({"k": x})),
    "update scalar": dict_op("RedisDict", {"k": 1}, lambda c, x: c.update({"k": x})),
    "update whole": dict_op("RedisDict", {"k": 1}, lambda c, x: c.update(x)),
    "reset": dict_op("RedisDict", {"a": {"b": 1}}, lambda c, x: c.reset(x)),
    "reset nested": dict_op("RedisDict", {"a": {"b": 1}}, lambda c, x: c.reset({"a": x})),
    "key": dict_op("RedisDict", {}, key_setter),
    "append": dict_op("RedisList", [], lambda c, x: c.append(x)),
    "insert": dict_op("RedisList", [1], lambda c, x: c.insert(0, x)),
    "list set": dict_op("RedisList", [[1]], list_setter),
    "slice": dict_op("RedisList", [[1]], slice_setter),
    "extend": dict_op("RedisList", [0], lambda c, x: c.extend(x)),
    "iadd": dict_op("RedisList", [0], iadd),
    "list reset": dict_op("RedisList", [[1], {"a": 1}], lambda c, x: c.reset(x)),
    "list reset nested": dict_op("RedisList", [[1], {"a": 1}], lambda c, x: c.reset([x, x])),
    "remove": dict_op("RedisList", [[1], {"a": 1}, 1], remover),
    "dict data": lambda x: stored(Opener("RedisDict").new(data=x)),
    "list data": lambda x: stored(Opener("RedisList").new(data=x)),
}
OP_NAMES = list(OPS)
CHUNK = 12


def outcome(op, name):
    try:
        x = POOL[name]()
    except Exception as e:
        raise engine.HarnessError(f"cannot make {name}: {e!r}") from e
    try:
        return ["ok", describe(OPS[op](x))]
    except Exception as e:
        return ["exc", type(e).__name__]


def fresh_outcomes(name):
    """The outcomes of all operations, each with a freshly imported library."""
    if name not in _fresh:
        shared = os.path.join(os.environ.get("VP_SCRATCH") or scratch(), "c19-" + name.replace(" ", "_") + ".json")
        try:
            with open(shared) as f:
                _fresh[name] = json.load(f)
            return _fresh[name]
        except (OSError, ValueError):
            pass
        result = {}
        for op in OP_NAMES:
            boot.reload()
            result[op] = outcome(op, name)
        _fresh[name] = json.loads(json.dumps(result))
        with open(f"{shared}.{os.getpid()}", "w") as f:
            json.dump(result, f)
        os.replace(f"{shared}.{os.getpid()}", shared)
    return _fresh[name]


_fresh = {}


def probe(name, expected, history):
    for op in OP_NAMES:
        got = json.loads(json.dumps(outcome(op, name)))
        if got != expected[op]:
            fail(f"{op} of {name!r} gives {got} after {history}, but {expected[op]} in a fresh process")


def pairs(tier):
    """All ordered pairs; several second values share a history that starts with the first one."""
    n = len(NAMES)
    for i, a in enumerate(NAMES):
        # A different order for every history.
        order = [NAMES[(i + k) % n] for k in range(n)]
        for lo in range(0, n, CHUNK):
            yield [a, order[lo : lo + CHUNK]]


def run_pair(case, stats):
    a, probes = case
    expected = {b: fresh_outcomes(b) for b in probes}
    boot.reload()
    for op in OP_NAMES:
        outcome(op, a)
    for i, b in enumerate(probes):
        probe(b, expected[b], f"all operations with {[a] + probes[:i]}")
    stats.evals(len(OP_NAMES) * len(probes))
    stats.count("pairs", len(probes))
    return probes != [a]


def split_pair(case):
    a, probes = case
    if len(probes) > 1:
        for b in probes:
            yield [a, [b]]
        for i in range(len(probes)):
            yield [a, probes[:i] + probes[i + 1 :]]


def run_kept(case, stats):
    expected = fresh_outcomes(case["probe"])
    boot.reload()
    for name, op in case["warm"]:
        if op == "gc":
            gc.collect(0)
            gc.collect(1)
        else:
            outcome(op, name)
    probe(case["probe"], expected, case["warm"])
    stats.evals(len(OP_NAMES))
    stats.count(f"length of history {len(case['warm']) // 5 * 5}")
    return any(n != case["probe"] for n, _ in case["warm"])


def generate(s, tier):
    pool = s.subset(NAMES, 2, 6) if s.boolean() else NAMES
    ops = s.subset(OP_NAMES, 2, 6) if s.boolean() else OP_NAMES

    def warm(s):
        return [s.choice(pool), "gc" if s.one_in(30) else s.choice(ops)]

    return {"warm": s.list(warm, 1, 30), "probe": s.choice(pool if s.boolean() else NAMES)}


SCENARIOS = [
    Scenario("pairs", run_pair, cases=pairs, own_evals=True, split=split_pair),
    Scenario("histories", run_kept, generate, quick=3600, thorough=400000, own_evals=True),
]
