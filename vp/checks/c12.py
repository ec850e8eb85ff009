"""C12: every JSON value is accepted and round-trips exactly."""

import re
import struct

from .. import boot, buffers, entries, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import is_attr, make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "The systematic scenario stores every value of an enumerated set (all scalars of a pool of boundary values, "
    "each of them alone and nested up to three levels, all pairs of values that are equal but of different types, unusual keys) "
    "one after another through every entry point at several positions of every class; each value is compared with "
    "the resource, with the object used and with a fresh object, by equality and by JSON type at every leaf. "
    "The random scenario stores deep random values through random entry points, also in buffered contexts. "
    "Non-trivial: every case that stores a value."
)
ASSUMPTIONS = [
    "Negative zero is compared by equality.",
    "Integers beyond 64 bits and NUL in keys are not tried with MongoDB (known findings); integers are below the limit of "
    "4300 digits that Python sets for their conversion.",
    "Lone surrogates are not tried with MongoDB, whose strings are UTF-8.",
]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "exhaustive enumeration of small values and property-based testing of large ones, as round trips"

SCALARS = [
    None, True, False, 0, 1, -1, 0.0, 1.0, -1.0, -0.0, 0.5, 0.1, 1e16, 1e22, 1e-7, 123456789.125, 1.7976931348623157e308,
    5e-324, 2.2250738585072014e-308, 2**31 - 1, 2**31, -(2**31) - 1, 2**32, 2**53, 2**53 + 1, -(2**53) - 1, 2**63 - 1,
    -(2**63), "", "0", "1", "true", "null", "None", "1.0", " ", "a", "é", "中文", "\U0001f600", "a\U0010ffffb", "\x00", "\x1f",
    "\x7f", "\x80", "  ", "﻿", "￾", "\\", "\"", "\\u0041", "\\\"", "/", "</script>", "\t\r\n\b\f", "{}", "[]",
    "{\"a\": 1}", "x" * 1000, "é" * 300, "a.b", "$x",
]
BIG = [2**63, 2**64 - 1, 2**64, -(2**63) - 1, 2**70, -(2**70), 2**200, 10**1000, -(10**4000), 2**1023, 2**1024,
       "\ud800", "\udfff", "a\udc00b", "\ude00\ud83d"]
TWINS = [None, True, False, 0, 1, 0.0, 1.0, "", "0", [], {}, [[]], [{}], {"k": {}}]
ODD_KEYS = [
    "", " ", "a b", "0", "-1", "1.5x"[:1], "é", "é", "\U0001f600", "\n", "\\", "\"", "'", "/", "$a", "$set", "_id", "_data", "data",
    "other", "self", "cls", "key", "value", "name", "__class__", "__dict__", "keys", "items", "update", "get", "pop", "filename",
    "None", "null", "true", "x" * 500, "﻿", "\x7f", "_root", "_load_and_save", "registry", "class", "def", "a-b",
]
DOTTED = ["a.b", ".", "a.", "..b"]


def scalars_for(name):
    return SCALARS if name.startswith("Mongo") else SCALARS + BIG


def keys_for(name):
    result = list(ODD_KEYS)
    if not is_attr(name):
        result += DOTTED
    if not name.startswith("Mongo"):
        result += ["\x00", "a\x00b"]
    return result


_small = {}


def small_values(name):
    """The enumerated values of a class."""
    k = (is_attr(name), name.startswith("Mongo"))
    if k not in _small:
        sc = scalars_for(name)
        result = list(sc)
        result += [[], {}, [[]], [{}], {"k": []}, {"k": {}}, [[[]]], {"": {"": {"": {}}}}, [[], {}, []], [{}, [], {}]]
        for x in sc:
            result += [[x], {"k": x}, [[x]], [{"k": x}], {"k": [x]}, {"k": {"j": x}}]
        for x in TWINS:
            for y in TWINS:
                result.append([x, y])
                result.append({"k": x, "j": [y, {"i": x}]})
        for key in keys_for(name):
            result += [{key: 1}, [{key: [None]}], {key: {key: {key: key}}}]
        deep = 1
        for i in range(6):
            deep = [deep] if i % 2 else {"k": deep}
            result.append(deep)
        for i in range(40):
            deep = [deep, i] if i % 2 else {"k": deep, "": i}
        result.append(deep)
        result.append(list(range(300)))
        result.append({f"key{i}": i for i in range(300)})
        _small[k] = result
    return _small[k]


POSITIONS = {
    "dict": [[], ["d"], ["l"], ["l", 0, "d"]],
    "list": [[], [0], [1], [0, "l"]],
}
BASE = {
    "dict": {"d": {"x": 0}, "l": [{"d": {"x": 0}}, 0], "s": 0},
    "list": [{"l": [0, 1]}, [0, 1], 0],
}


def base_at(name, path):
    m = BASE[gen.kind_of(name)]
    for k in path:
        m = m[k]
    return m


def systematic(tier):
    """Every combination; the quick tier stores every eighth value, other ones for each entry point."""
    for i, case in enumerate(combinations()):
        if tier == "quick" and case[2] != "constructor":
            case[3] = list(range(i % 8, len(small_values(case[0])), 8))
        yield case


def combinations():
    for name in gen.ALL:
        kind = gen.kind_of(name)
        yield [name, [], "constructor", None]
        for path in POSITIONS[kind]:
            target = base_at(name, path)
            es = entries.names(type(target).__name__, is_attr(name))
            es += entries.DICT_WHOLE if type(target) is dict else entries.LIST_WHOLE
            for e in es:
                yield [name, path, e, None]


def split(case):
    name, path, entry, indices = case
    n = len(small_values(name))
    if indices is None:
        indices = list(range(n))
    if len(indices) > 1:
        half = len(indices) // 2
        yield [name, path, entry, indices[:half]]
        yield [name, path, entry, indices[half:]]
        if len(indices) <= 4:
            # The previous value matters.
            for i in range(len(indices)):
                yield [name, path, entry, indices[:i] + indices[i + 1:]]


def run_systematic(case, stats):
    name, path, entry, indices = case
    vals = small_values(name)
    if indices is not None:
        vals = [vals[i] for i in indices]
    whole = entry.endswith("_whole")
    kind = type(base_at(name, path))
    if whole:
        vals = [v for v in vals if type(v) is kind]
    n = 0
    with case_dir() as d:
        if entry == "constructor":
            for v in vals:
                n += 1
                if type(v) is not type(BASE[gen.kind_of(name)]):
                    v = {"v": v} if gen.kind_of(name) == "dict" else [v]
                res = make(name, d, None, f"c{n}")
                o = res.open(data=clone(v))
                if not same(o(), v):
                    fail(f"{name}(data={show(v)}) holds {show(o())}")
                # Any save stores what was given.
                if type(v) is dict:
                    o["later"] = 1
                    v = {**v, "later": 1}
                else:
                    o.append(1)
                    v = v + [1]
                check(name, res, o, v, "constructor", v)
            stats.evals(n)
            stats.count("round trips", n)
            return True
        model = clone(BASE[gen.kind_of(name)])
        res = make(name, d)
        res.write(model)
        o = res.open()
        c, m = o, model
        for k in path:
            c, m = c[k], m[k]
        for v in vals:
            n += 1
            if type(m) is dict:
                if len(m) > 6 and not n % 3 or entry == "setdefault":
                    c.reset({"x": 0})
                    m.clear()
                    m["x"] = 0
                entries.enter_dict(c, entry, "zz9", clone(v))
                entries.model_dict(m, entry, "zz9", clone(v))
            else:
                if len(m) > 6 or not m:
                    c.reset([0, 1])
                    m[:] = [0, 1]
                entries.enter_list(c, entry, 0, clone(v))
                entries.model_list(m, entry, 0, clone(v))
            check(name, res, o, model, entry, v)
        stats.evals(n)
        stats.count("round trips", n)
        return n > 0


def check(name, res, o, model, entry, v):
    fresh = res.open()()
    if not same(fresh, model):
        fail(f"{name}: after {entry} of {show(v)} a fresh object shows {show(diff(fresh, model))}")
    content = res.read()
    if not same(content, model):
        fail(f"{name}: after {entry} of {show(v)} the resource holds {show(diff(content, model))}")
    own = o()
    if not same(own, model):
        fail(f"{name}: after {entry} of {show(v)} the object shows {show(diff(own, model))}")


def diff(a, b):
    """The first difference."""
    if type(a) is dict and type(b) is dict and a.keys() == b.keys():
        for k in a:
            if not same(a[k], b[k]):
                return diff(a[k], b[k])
    if type(a) is list and type(b) is list and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y):
                return diff(x, y)
    return f"{a!r:.120} instead of {b!r:.120}"


# -- random values -----------------------------------------------------------------------


def text(s, nul=True, lone=True):
    k = s.below(6)
    if k == 0:
        return s.choice(["a", "b", "c", ""])
    if k == 1:
        return s.choice(ODD_KEYS)

    def char(s):
        k = s.below(5)
        if k == 0:
            return chr(s.between(0x20, 0x7E))
        if k == 1:
            return chr(s.between(0 if nul else 1, 0x1F))
        if k == 2:
            return s.choice("\\\"/u{}[],:.0\x7f ﻿")
        if k == 3:
            c = s.between(0xA0, 0xFFFF)
            if lone and s.one_in(8):
                c = s.between(0xD800, 0xDFFF)
            return chr(c) if lone or not 0xD800 <= c <= 0xDFFF else "?"
        return chr(s.between(0x10000, 0x10FFFF))

    result = "".join(s.list(char, 0, 12)) * s.choice([1, 1, 1, 1, 50])
    # JSON cannot tell pairs of surrogates from the character they stand for.
    return re.sub("[\ud800-\udbff]+[\udc00-\udfff]", "?", result)


def number(s, big):
    k = s.below(5)
    if k == 0:
        return s.between(0, 3)
    if k == 1:
        x = struct.unpack(">d", struct.pack(">Q", s.below(2**64)))[0]
        return x if x - x == 0 else 0.25
    if k == 2:
        return s.below(10**6) / s.choice([1, 3, 7, 10, 100, 1000])
    bits = s.choice([8, 31, 32, 53, 62] + ([63, 64, 65, 128, 300, 3000] if big else [62]))
    n = s.below(2**bits) + s.choice([0, 2**bits])
    return -n if s.boolean() else n


def random_value(name, depth, width):
    big = not name.startswith("Mongo")
    dots = not is_attr(name)

    def key(s):
        k = text(s, big, big)
        return k if dots else k.replace(".", "_")

    def leaf(s):
        k = s.below(6)
        if k == 0:
            return s.choice([None, True, False, 0, 1, 0.0, 1.0] + (BIG if big else []))
        if k < 3:
            return text(s, True, big)
        return number(s, big)

    def level(n):
        if n == 0:
            return leaf
        inner = level(n - 1)

        def g(s):
            k = s.below(5)
            if k < 2:
                return leaf(s)
            if k == 2:
                return dict(s.list(lambda s: (key(s), inner(s)), 0, width))
            if k == 3:
                return s.list(inner, 0, width)
            # A chain.
            return {key(s): inner(s)} if s.boolean() else [inner(s)]

        return g

    return level(depth)


def generate(s, tier):
    name = s.choice(gen.ALL)
    attr = is_attr(name)
    kind = gen.kind_of(name)
    value = gen._memo(random_value, name, s.choice([1, 3, 6]), 3)
    step = ops.steps([0], ["setitem"], ["setitem"], lambda s: None, ["zz9", "a", "b"], srcs=(0, 0, 1, 2))
    de = gen.swarm(s, entries.names("dict", attr) + entries.DICT_WHOLE)
    le = gen.swarm(s, entries.names("list") + entries.LIST_WHOLE)

    def action(s):
        if s.one_in(6):
            return ["grab", step(s)]
        return ["put", step(s), s.choice(de), s.choice(le), value(s)]

    init = value(s)
    if type(init).__name__ != kind:
        init = {"a": init} if kind == "dict" else [init]
    return {
        "cls": name,
        "cfg": gen.config(s, name),
        "init": None if s.one_in(5) else init,
        "ctx": name in boot.BUFFERED_CLASSES and s.choice([None, "object", "backend", "tiny"]),
        "actions": s.list(action, 1, 5 if tier == "quick" else 12),
    }


def run(case, stats):
    name = case["cls"]
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(name, d, case["cfg"], case["init"], 1, "identity")
        ctx = buffers.Contexts()
        if case["ctx"] == "object":
            ctx.enter_object(w.objs[0])
        elif case["ctx"]:
            ctx.enter_backend(w.res.cls, 0 if case["ctx"] == "tiny" else None)
        o = w.objs[0]
        n = 0
        try:
            for a in case["actions"]:
                if a[0] == "grab":
                    w.grab(a[1])
                    continue
                _, step, de, le, v = a
                actor, path, m, start = w.target(step)
                c = w.walk(start)
                if type(m) is dict:
                    if de.endswith("_whole") and type(v) is not dict:
                        de = "setitem"
                    entry, key = de, "zz9" if de == "attr" else step[7]
                    entries.enter_dict(c, entry, key, clone(v))
                    entries.model_dict(m, entry, key, clone(v))
                else:
                    if le.endswith("_whole") and type(v) is not list:
                        le = "append"
                    if not m and le in ("setitem", "setitem_neg", "setslice_step"):
                        le = "append"
                    entry = le
                    index = step[5] % len(m) if m else 0
                    entries.enter_list(c, entry, index, clone(v))
                    entries.model_list(m, entry, index, clone(v))
                n += 1
                w.changed = True
                w.refresh(0)
                stats.count(f"entry {type(m).__name__}.{entry}")
                stats.count(f"depth of value {min(values.depth_of(v), 6)}")
                if ctx.stack:
                    if not same(o(), w.model):
                        fail(f"{name}: after {entry} of {show(v)} the buffered object shows {show(diff(o(), w.model))}")
                else:
                    check(name, w.res, o, w.model, entry, v)
        finally:
            ctx.exit_all()
        if n:
            check(name, w.res, o, w.model, "leaving the context", None)
        return n > 0


SCENARIOS = [
    Scenario("systematic", run_systematic, cases=systematic, own_evals=True, split=split),
    Scenario("random", run, generate, quick=80000, thorough=2000000),
]


def probe_mongo_big():
    with case_dir() as d:
        make("MongoDBDict", d).open()["a"] = 2**64


def probe_mongo_nul():
    with case_dir() as d:
        make("MongoDBDict", d).open()["a\x00b"] = 1


PROBES = {"mongodb-big-integers": probe_mongo_big, "mongodb-nul-keys": probe_mongo_nul}
