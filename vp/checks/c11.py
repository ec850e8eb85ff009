"""C11: forbidden data never gets in."""

import collections
import datetime
import decimal
import enum
import fractions
import functools
import pathlib
import types
import uuid

import numpy

from .. import boot, buffers, entries, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import MISSING, is_attr, make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case applies valid operations and attempts to store forbidden data (bad values of many types, bad keys, keys "
    "with dots for the attribute-access families) through every entry point, wrapped in up to three levels of "
    "various containers next to valid siblings, at any position of the tree, unbuffered and in buffered contexts. "
    "Every attempt must raise TypeError or ValueError, and afterwards neither the collection "
    "nor the resource may hold anything forbidden; single-element attempts must change nothing, which is also checked for "
    "the data in memory by reading while the resource is absent. "
    "Public methods and operators that are not in the table of entry points are called with forbidden data as well. "
    "Non-trivial: at least one attempt."
)
ASSUMPTIONS = [
    "Bytes, tuples and other sequences are stored as lists, and numpy data is converted: they are not forbidden.",
    "NaN and infinities are not tried.",
    "Numerical numpy data that JSON cannot represent is not tried with Zarr collections (known finding).",
]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "property-based testing with injection of forbidden data at every entry point and depth"


class Color(enum.Enum):
    RED = 1


class Thing:
    def __init__(self):
        self._data = {"a": 1}


class Plain:
    pass


class SubStr(str):
    pass


class OwnMapping(collections.abc.Mapping):
    def __init__(self, data):
        self._d = data

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class OwnSequence(collections.abc.Sequence):
    def __init__(self, data):
        self._d = data

    def __getitem__(self, i):
        return self._d[i]

    def __len__(self):
        return len(self._d)


def obj_array(x):
    a = numpy.empty(1, dtype=object)
    a[0] = x
    return a


def obj_array0(x):
    a = numpy.empty((), dtype=object)
    a[()] = x
    return a


BAD_VALUES = {
    "object": object,
    "set": lambda: {1, 2},
    "emptyset": set,
    "frozenset": lambda: frozenset([1]),
    "complex": lambda: 1j,
    "complex0": lambda: complex(1, 0),
    "date": lambda: datetime.date(2020, 1, 1),
    "datetime": lambda: datetime.datetime(2020, 1, 1),
    "timedelta": lambda: datetime.timedelta(1),
    "decimal": lambda: decimal.Decimal("1.5"),
    "fraction": lambda: fractions.Fraction(1, 2),
    "function": lambda: (lambda: 0),
    "builtin": lambda: len,
    "class": lambda: dict,
    "intclass": lambda: int,
    "module": lambda: enum,
    "generator": lambda: (x for x in [1]),
    "iterator": lambda: iter([1]),
    "ellipsis": lambda: ...,
    "enum": lambda: Color.RED,
    "uuid": lambda: uuid.UUID(int=1),
    "path": lambda: pathlib.PurePosixPath("/x"),
    "keys": lambda: {"a": 1}.keys(),
    "items": lambda: {"a": 1}.items(),
    "dictvalues": lambda: {"a": 1}.values(),
    "exception": lambda: ValueError("x"),
    "namespace": lambda: types.SimpleNamespace(a=1),
    "instance": Plain,
    "has_data": Thing,
    "slice": lambda: slice(1),
    "map": lambda: map(str, [1]),
    "np_complex": lambda: numpy.complex128(1j),
    "np_complex0": lambda: numpy.complex64(1),
    "np_longdouble": lambda: numpy.longdouble(1),
    "np_arr_complex": lambda: numpy.array([1j, 2]),
    "np_arr_complex2": lambda: numpy.array([[1j], [2]]),
    "np_0d_complex": lambda: numpy.array(1j),
    "np_0d_longdouble": lambda: numpy.array(1, dtype=numpy.longdouble),
    "np_arr_longdouble": lambda: numpy.array([1], dtype=numpy.longdouble),
    "np_datetime": lambda: numpy.datetime64("2020-01-01"),
    "np_arr_datetime": lambda: numpy.array(["2020-01-01"], dtype="datetime64[D]"),
    "np_arr_object": lambda: obj_array(Plain()),
    "np_arr_set": lambda: obj_array({1}),
    "np_0d_object": lambda: obj_array0(Plain()),
    "np_0d_set": lambda: obj_array0({1}),
    "np_dtype": lambda: numpy.dtype(int),
}
NP_NUMERIC = [
    "np_complex", "np_complex0", "np_longdouble", "np_arr_complex", "np_arr_complex2", "np_0d_complex",
    "np_0d_longdouble", "np_arr_longdouble",
]
BAD_KEYS = {
    "0": lambda: 0,
    "1": lambda: 1,
    "-1": lambda: -1,
    "float": lambda: 1.5,
    "none": lambda: None,
    "true": lambda: True,
    "tuple": lambda: ("a", "b"),
    "emptytuple": lambda: (),
    "bytes": lambda: b"a",
    "frozenset": lambda: frozenset("a"),
    "np_int": lambda: numpy.int64(1),
    "object": Plain,
    "enum": lambda: Color.RED,
    "type": lambda: int,
    "big": lambda: 2**70,
}
DOT_KEYS = {
    "a.b": lambda: "a.b",
    ".": lambda: ".",
    "a.": lambda: "a.",
    ".b": lambda: ".b",
    "..": lambda: "..",
    "long": lambda: "k" * 300 + ".x",
    "substr": lambda: SubStr("a.b"),
    "np_str": lambda: numpy.str_("a.b"),
    "dunder": lambda: "__a.b__",
    "protected": lambda: "_data.x",
}
WRAPS = {
    "dict": lambda x: {"w": x},
    "dict1": lambda x: {"g": 1, "w": x},
    "dict2": lambda x: {"w": x, "g": [1]},
    "odict": lambda x: collections.OrderedDict(w=x),
    "ddict": lambda x: collections.defaultdict(list, w=x),
    "udict": lambda x: collections.UserDict({"w": x}),
    "proxy": lambda x: types.MappingProxyType({"w": x}),
    "own": lambda x: OwnMapping({"w": x}),
    "list": lambda x: [x],
    "list1": lambda x: [1, x],
    "list2": lambda x: [x, {"g": 1}],
    "list5": lambda x: [{}, [], None, "s", x],
    "tuple": lambda x: (x,),
    "tuple1": lambda x: (1, x, 2),
    "ulist": lambda x: collections.UserList([x]),
    "deque": lambda x: collections.deque([x]),
    "ownseq": lambda x: OwnSequence([x]),
    "array": obj_array,
    "long": lambda x: [1] * 40 + [x] + [1] * 40,
    "longest": lambda x: [{"g": 1}] * 300 + [x],
    "wide": lambda x: {**{f"g{i}": i for i in range(40)}, "w": x, **{f"h{i}": i for i in range(40)}},
    "widest": lambda x: {**{f"g{i}": [] for i in range(300)}, "w": x},
    "longtuple": lambda x: (1,) * 70 + (x,),
    "deep": lambda x: functools.reduce(lambda y, i: [y] if i % 2 else {"w": y}, range(20), x),
}
# Keep shrinking towards plain containers.
WRAP_NAMES = ["dict", "list", "dict1", "dict2", "list1", "list2", "list5", "tuple", "tuple1", "odict", "ddict", "udict",
              "proxy", "own", "ulist", "deque", "ownseq", "array", "long", "longest", "wide", "widest", "longtuple", "deep"]
UNKNOWN_DUNDERS = ["__ior__", "__or__", "__ror__", "__add__", "__radd__", "__imul__", "__mul__", "__iand__", "__ixor__",
                   "__isub__", "__setstate__", "__copy__", "__matmul__", "__imatmul__", "__lshift__", "__ilshift__"]
KNOWN_API = {
    "append", "clear", "count", "extend", "index", "insert", "pop", "popitem", "remove", "reset", "reverse", "get",
    "items", "keys", "setdefault", "update", "values", "filename", "is_base_type", "registry", "enable_multithreading",
    "disable_multithreading", "backend_is_buffered", "buffer_backend", "buffered", "get_buffer_capacity",
    "get_current_buffer_size", "set_buffer_capacity", "client", "key", "codec", "group", "name", "collection", "uid",
}


USUAL = "zz9"


def bad_item(spec):
    """(value, True) or (key, False)."""
    kind, name = spec
    if kind == "value":
        return BAD_VALUES[name](), True
    return (BAD_KEYS if kind == "key" else DOT_KEYS)[name](), False


def build(spec, wraps, direct):
    """The argument holding the forbidden item; wraps are applied inside out.

    direct: a bad key is used as the key of the entry point itself.
    """
    item, is_value = bad_item(spec)
    if direct and not is_value:
        return 1, item
    x = item if is_value else {item: 1}
    for w in wraps:
        x = WRAPS[w](x)
    return x, USUAL


def forbidden(data, attr):
    """Describe the first forbidden item in plain data."""
    if isinstance(data, dict):
        for k, v in data.items():
            if not isinstance(k, str):
                return f"key {k!r}"
            if attr and "." in k:
                return f"key {k!r}"
            r = forbidden(v, attr)
            if r:
                return r
        return None
    if isinstance(data, list):
        for v in data:
            r = forbidden(v, attr)
            if r:
                return r
        return None
    if data is None or isinstance(data, (str, int, float, bool)):
        return None
    return f"{type(data).__name__} {data!r:.80}"


def specs_of(cls_name):
    result = [["value", n] for n in BAD_VALUES if not (cls_name.startswith("Zarr") and n in NP_NUMERIC)]
    keys = [["key", n] for n in BAD_KEYS]
    if is_attr(cls_name):
        keys += [["dot", n] for n in DOT_KEYS] * 2
    return result, keys


_specs = {}


def spec(s, cls_name, only_keys):
    if cls_name not in _specs:
        _specs[cls_name] = specs_of(cls_name)
    vals, keys = _specs[cls_name]
    return s.choice(vals if s.boolean() and not only_keys else keys)


def generate(s, tier):
    cls_name = s.choice(gen.ALL)
    attr = is_attr(cls_name)
    pool = values.SIMPLE_KEYS[:3] if s.boolean() else None
    big = gen.big_ok(cls_name)
    value = gen._memo(values.values, 2, 2, pool, big=big)
    step = ops.steps([0, 0, 1], gen.swarm(s, ops.DICT_MUTATORS), gen.swarm(s, ops.LIST_MUTATORS), value, pool)
    dict_entries = gen.swarm(s, entries.names("dict", attr))
    list_entries = gen.swarm(s, entries.names("list"))
    buffered = cls_name in boot.BUFFERED_CLASSES
    cfg = gen.config(s, cls_name)
    # Other codecs than JSON accept other values.
    only_keys = cfg.get("codec") == 1

    def action(s):
        k = s.below(8)
        if k < 6:
            return ["bad", step(s), s.choice(dict_entries), s.choice(list_entries), spec(s, cls_name, only_keys),
                    s.list(lambda s: s.choice(WRAP_NAMES), 0, 3), s.boolean()]
        if k == 6:
            return ["step", step(s)]
        return [s.choice(["grab", "new"]), step(s), spec(s, cls_name, only_keys), s.list(lambda s: s.choice(WRAP_NAMES), 0, 2)]

    return {
        "cls": cls_name,
        "cfg": cfg,
        "init": None if s.one_in(5) else gen._memo(values.containers, 3, 3, pool, kind=gen.kind_of(cls_name), big=big)(s),
        "n": s.choice([1, 2]),
        "ctx": buffered and s.choice([None, None, "object", "backend", "tiny"]),
        "api": s.one_in(20),
        "actions": s.list(action, 1, 8 if tier == "quick" else 16),
    }


REJECTIONS = (TypeError, ValueError)


def attempt(c, is_dict, entry, key, index, arg):
    """Try to store arg; return the exception or None."""
    try:
        if is_dict:
            entries.enter_dict(c, entry, key, arg)
        else:
            entries.enter_list(c, entry, index, arg)
    except REJECTIONS as e:
        return e
    return None


def peek(w):
    """What the objects hold in memory: their data while the resource is absent."""
    res = w.res
    hidden = None
    if hasattr(res, "path"):
        hidden = res.raw()
        if hidden is not None:
            res.delete()
    elif hasattr(res.client, "store") if hasattr(res, "client") else False:
        hidden = dict(res.client.store)
        res.client.store.clear()
    elif hasattr(res, "client"):
        hidden = list(res.client.docs)
        res.client.docs.clear()
    else:
        hidden = dict(res.store)
        for k in [k for k in res.store if k.startswith(res.name + "/")]:
            dict.__delitem__(res.store, k)
    try:
        return [o() for o in w.objs]
    finally:
        if hasattr(res, "path"):
            if hidden is not None:
                with open(res.path, "wb") as f:
                    f.write(hidden)
        elif hasattr(res, "client"):
            if hasattr(res.client, "store"):
                res.client.store.update(hidden)
            else:
                res.client.docs.extend(hidden)
        else:
            for k, v in hidden.items():
                dict.__setitem__(res.store, k, v)


def run(case, stats):
    name = case["cls"]
    attr = is_attr(name)
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(name, d, case["cfg"], case["init"], case["n"], "identity")
        w.exact_order = False
        ctx = buffers.Contexts()
        cls = w.res.cls
        if case["ctx"] == "object":
            for o in w.objs:
                ctx.enter_object(o)
        elif case["ctx"] == "backend":
            ctx.enter_backend(cls)
        elif case["ctx"] == "tiny":
            ctx.enter_backend(cls, 0)
        # With several objects, only the one that is used next sees the changes of missing resources.
        attempts = 0
        try:
            for a in case["actions"]:
                if a[0] == "step":
                    w.step(a[1], results=False)
                elif a[0] == "grab":
                    w.grab(a[1])
                elif a[0] == "new":
                    attempts += construct(case, d, a, stats)
                else:
                    attempts += bad(case, w, a, attr, ctx, stats)
            if case["api"]:
                unknown_api(case, w, attr, stats)
        finally:
            ctx.exit_all()
        content = w.res.read()
        if content is not MISSING:
            r = forbidden(content, attr)
            if r:
                fail(f"{name}: the resource holds {r} at the end")
        stats.count("class " + name)
        return attempts > 0


def construct(case, d, a, stats):
    """Forbidden data given to the constructor."""
    name = case["cls"]
    kind = gen.kind_of(name)
    arg, _ = build(a[2], a[3], False)
    arg = {"w": arg} if kind == "dict" else [arg]
    res = make(name, d, case["cfg"], "constructed")
    try:
        o = res.open(data=arg)
    except REJECTIONS:
        pass
    else:
        fail(f"{name}(data={show(arg)}) was accepted and holds {show(o())}")
    if res.read() is not MISSING:
        fail(f"{name}(data={show(arg)}) wrote {show(res.read())}")
    stats.count("entry constructor")
    return 1


def bad(case, w, a, attr, ctx, stats):
    name = case["cls"]
    _, step, de, le, sp, wraps, direct = a
    actor, path, m, start = w.target(step)
    is_dict = type(m) is dict
    entry = de if is_dict else le
    if not is_dict and not m and entry in ("setitem", "setitem_neg", "setslice_step"):
        entry = "append"
    direct = direct and is_dict and not wraps
    arg, key = build(sp, wraps, direct)
    if key is not USUAL and entry in ("update_kw", "update_both", "attr") and not isinstance(key, str):
        # Cannot be written this way.
        entry = "update"
    if key is not USUAL and entry == "attr" and (key.startswith("__") or key in ("_data.x",)):
        entry = "setitem"
    if entry == "attr" and key is USUAL and not attr:
        entry = "setitem"
    if wraps and step[6] % 3 == 0:
        # The container itself as the argument.
        if is_dict and isinstance(arg, collections.abc.Mapping):
            entry = ["update_whole", "pairs_whole", "reset_whole", "kw_whole"][step[5] % 4]
        elif not is_dict and isinstance(arg, (collections.abc.Sequence, numpy.ndarray)):
            entry = entries.LIST_WHOLE[step[5] % 4]
    c = w.walk(start)
    index = step[5] % len(m) if m else 0
    what = f"{name} at {path} of {show(w.model)}: {entry} of {show(arg)}" + (f" under key {key!r}" if key is not USUAL else "")
    e = attempt(c, is_dict, entry, key, index, arg)
    stats.count(f"entry {'dict' if is_dict else 'list'}.{entry}")
    stats.count(f"bad {sp[0]}.{sp[1]}")
    stats.count(f"depth of target {len(path)}")
    stats.count(f"depth in argument {len(wraps)}")
    if e is None:
        fail(f"{what} was accepted; the collection holds {show(w.objs[actor]())}")
    own = w.objs[actor]
    shown = own()
    r = forbidden(shown, attr)
    if r:
        fail(f"{what} was rejected but the collection holds {r}")
    if entry in entries.SINGLE:
        if not same(shown, w.model):
            fail(f"{what} was rejected but the collection changed to {show(shown)}")
        if not ctx.stack:
            w.check_resource(f"({what} was rejected)")
            for o in w.objs:
                o()
            if case["init"] is not None or w.changed:
                for shown in peek(w):
                    if not same(shown, w.model):
                        fail(f"{what} was rejected but the data in memory is {show(shown)}")
    else:
        if not ctx.stack:
            content = w.res.content()
            r = forbidden(content, attr)
            if r:
                fail(f"{what} was rejected but the resource holds {r}")
            for o in w.objs:
                o()
            for shown in peek(w):
                r = forbidden(shown, attr)
                if r:
                    fail(f"{what} was rejected but the data in memory holds {r}")
        if not same(shown, w.model):
            # Valid parts may have been stored.
            stats.count("partly stored")
            w.model = clone(own())
            w.handles = []
    return 1


def unknown_api(case, w, attr, stats):
    """Call whatever else the classes offer with forbidden data."""
    name = case["cls"]
    targets = [w.objs[0]] + [h.synced for h in w.handles]
    for c in targets:
        for n in dir(type(c)):
            if n.startswith("_") and n not in UNKNOWN_DUNDERS or n in KNOWN_API:
                continue
            f = getattr(c, n, None)
            if not callable(f):
                continue
            stats.count("unknown method " + n)
            sp = ["dot", "a.b"] if attr else ["key", "1"]
            for spc in (["value", "object"], sp):
                x, _ = build(spc, [], False)
                for args in ((x,), ("k", x), (0, x), ({"k": x},), ([x],)):
                    try:
                        f(*args)
                    except Exception:
                        pass
            for o in w.objs:
                r = forbidden(o(), attr)
                if r:
                    fail(f"{name}.{n} let in {r}")
    content = w.res.content()
    r = forbidden(content, attr)
    if r:
        fail(f"{name}: an operation let {r} into the resource")
    w.model = clone(w.objs[0]())
    w.handles = []


# -- systematic attempts ---------------------------------------------------------------

TREES = {
    "dict": {"d": {"d": {"k": 1}, "l": [1]}, "l": [[1], {"k": 1}], "k": 1},
    "list": [{"d": {"k": 1}, "l": [1]}, [[1], {"k": 1}], 1],
}


def paths(tree, path=()):
    """All positions of containers."""
    yield list(path)
    items = tree.items() if type(tree) is dict else enumerate(tree)
    for k, v in items:
        if type(v) in (dict, list):
            yield from paths(v, path + (k,))


def systematic(tier):
    """Every entry point at every position with every forbidden item, wrapped in plain containers."""
    for name in gen.ALL:
        for path in paths(TREES[gen.kind_of(name)]):
            for missing in (False, True):
                if not missing or not path:
                    yield [name, path, missing, tier, None, None]


def split_systematic(case):
    name, path, missing, tier, entry, spec = case
    tree = TREES[gen.kind_of(name)]
    for k in path:
        tree = tree[k]
    if entry is None:
        for e in entries.names(type(tree).__name__, is_attr(name)):
            yield [name, path, missing, tier, e, None]
    elif spec is None:
        vals, keys = specs_of(name)
        for sp in vals + keys:
            yield [name, path, missing, tier, entry, sp]


def run_systematic(case, stats):
    name, path, missing, tier, only_entry, only_spec = case
    attr = is_attr(name)
    tree = TREES[gen.kind_of(name)]
    vals, keys = specs_of(name)
    wraps = [[], ["dict"], ["list"]]
    if tier == "thorough":
        wraps += [[a, b] for a in ("dict", "list", "tuple", "array") for b in ("dict", "list")]
        wraps += [[a, b, c] for a in ("dict", "list") for b in ("dict", "list") for c in ("dict", "list")]
        wraps += [["long"], ["longest"], ["wide"], ["widest"], ["longtuple"], ["deep"], ["dict", "long"], ["wide", "list"]]
    else:
        # A small part of all values, chosen by position, with deeper wraps.
        wraps += [["dict", "list"], ["list", "dict", "list"], ["long"], ["wide"], ["list", "longtuple"], ["deep"]]
    with case_dir() as d:
        res = make(name, d)
        if missing:
            model = res.empty()
        else:
            model = clone(tree)
            res.write(model)
        o = res.open()
        c = o
        m = model
        for k in path:
            c = c[k]
            m = m[k]
        is_dict = type(m) is dict
        n = 0
        for entry in entries.names(type(m).__name__, attr):
            if missing and entry in ("setitem", "setitem_neg", "setslice_step") and not is_dict:
                continue
            if only_entry not in (None, entry):
                continue
            for i, sp in enumerate(vals + keys):
                if only_spec not in (None, sp):
                    continue
                is_key = sp[0] != "value"
                for j, ws in enumerate(wraps):
                    if tier == "quick" and j > 2 and (i + j + len(path)) % (4 if j < 5 else 9):
                        continue
                    for direct in (False, True) if is_key and is_dict and not ws else (False,):
                        arg, key = build(sp, ws, direct)
                        if key is not USUAL and not isinstance(key, str) and entry in ("update_kw", "update_both", "attr"):
                            continue
                        if key is not USUAL and entry == "attr" and str(key).startswith("_"):
                            continue
                        n += 1
                        e = attempt(c, is_dict, entry, key, 0, arg)
                        if e is None:
                            fail(f"{name} at {path}: {entry} of {show(arg)} (key {key!r}) was accepted; now {show(o())}")
                if i % 8 == 0:
                    quick_state(name, o, res, model, entry, sp, attr)
            quick_state(name, o, res, model, entry, None, attr)
        stats.evals(n)
        stats.count("systematic attempts", n)
        return True


def quick_state(name, o, res, model, entry, sp, attr):
    shown = o()
    content = res.content()
    r = forbidden(shown, attr) or forbidden(content, attr)
    if r:
        fail(f"{name}: attempts with {entry} let in {r}")
    if not same(shown, model) and entry in entries.SINGLE:
        fail(f"{name}: rejected attempts with {entry} changed the collection to {show(shown)}")


SCENARIOS = [
    Scenario("systematic", run_systematic, cases=systematic, own_evals=True, split=split_systematic),
    Scenario("attempts", run, generate, quick=150000, thorough=1200000),
]


# -- known finding ------------------------------------------------------------------------


def probe_zarr_numbers():
    with case_dir() as d:
        res = make("ZarrDict", d)
        o = res.open()
        try:
            o["a"] = numpy.complex128(1j)
        except REJECTIONS:
            pass
        else:
            fail("a complex number was accepted")
        try:
            shown, content = o(), res.content()
        except Exception as e:
            fail(f"after a rejected complex number, reading raises {e!r}")
        if shown != {} or content != {}:
            fail(f"after a rejected complex number the collection holds {shown!r} and the resource {content!r}")


PROBES = {"zarr-numpy-numbers": probe_zarr_numbers}
