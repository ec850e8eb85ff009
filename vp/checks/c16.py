"""C16: values are copied in and out."""

import collections
import types

import numpy

from .. import boot, buffers, entries, gen, ops, resources, values
from ..engine import Scenario, case_dir, fail
from ..resources import is_attr, make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case passes nested arguments (built-in containers, their subclasses, other mapping and sequence types, numpy "
    "arrays and numbers) through every entry point, takes (), values() and items(), removes values by pop, popitem and del, and assigns "
    "synced collections and nested children of the same or another collection; then it mutates every container reachable from "
    "the argument, result, removed value or source, saves once more, and compares all objects and the resource "
    "with a model that shares nothing. Results must consist of plain built-in containers. "
    "Non-trivial: at least one container was mutated afterwards."
)
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "property-based testing that mutates all arguments and results afterwards"

WRAPS = ["plain", "plain", "tuple", "odict", "udict", "own", "ulist", "array", "subclass", "mixed", "numbers"]


class OwnDict(dict):
    pass


class OwnList(list):
    pass


class OwnMapping(collections.abc.Mapping):
    def __init__(self, data):
        self.d = data

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def dress(x, how, level=0):
    """The same value made of other container types."""
    if type(x) is dict:
        d = {k: dress(v, how, level + 1) for k, v in x.items()}
        if how == "odict":
            return collections.OrderedDict(d)
        if how == "udict" or (how == "mixed" and level % 2):
            return collections.UserDict(d)
        if how == "own":
            return OwnMapping(d)
        if how == "subclass":
            return OwnDict(d)
        return d
    if type(x) is list:
        v = [dress(v, how, level + 1) for v in x]
        if how == "tuple" or (how == "mixed" and level % 2):
            return tuple(v)
        if how == "ulist":
            return collections.UserList(v)
        if how == "deque":
            return collections.deque(v)
        if how == "subclass":
            return OwnList(v)
        if how == "array" and v and any(isinstance(e, (dict, list, numpy.ndarray)) for e in v):
            a = numpy.empty(len(v), dtype=object)
            for i, e in enumerate(v):
                a[i] = e
            return a
        if how == "numbers" and v and isinstance(v[0], (numpy.ndarray, numpy.generic)):
            if len({(type(e), e.dtype, e.shape) if hasattr(e, "dtype") else None for e in v}) == 1:
                return numpy.array(v)
        return v
    if how == "numbers":
        if type(x) is bool:
            return numpy.bool_(x)
        if type(x) is int and abs(x) < 2**63:
            return numpy.int64(x)
        if type(x) is float:
            return numpy.float64(x)
    return x


def mutate(x):
    """Mutate every container reachable from x; return how many were mutated."""
    n = 0
    if isinstance(x, OwnMapping):
        return mutate(x.d)
    if isinstance(x, (dict, collections.UserDict)):
        for v in list(x.values()):
            n += mutate(v)
        for k in list(x)[:1]:
            del x[k]
        x["mutated"] = "MUTATED"
        return n + 1
    if isinstance(x, (list, collections.UserList, collections.deque)):
        for v in list(x):
            n += mutate(v)
        if x:
            x[0] = "MUTATED"
        x.append("MUTATED")
        return n + 1
    if isinstance(x, numpy.ndarray) and x.dtype != object:
        x[...] = ~x if x.dtype == bool else 77
        return 1
    if isinstance(x, numpy.ndarray):
        for v in list(x):
            n += mutate(v)
        if len(x):
            x[0] = "MUTATED"
        return n + 1
    if isinstance(x, (tuple, types.GeneratorType)):
        for v in list(x):
            n += mutate(v)
    return n


def mutate_synced(x, how):
    """Mutate a synced container that was removed, children first."""
    lib = boot.lib()
    n = 0
    if isinstance(x, lib.SyncedDict):
        for k in list(x):
            n += mutate_synced(x[k], how)
        if how == 0:
            x["mutated"] = "MUTATED"
        elif how == 1:
            x.update({"mutated": ["MUTATED"]})
        elif how == 2:
            x.reset({"mutated": {}})
        else:
            x.clear()
        return n + 1
    if isinstance(x, lib.SyncedList):
        for v in list(x):
            n += mutate_synced(v, how)
        if how == 0:
            x.append("MUTATED")
        elif how == 1:
            x.insert(0, ["MUTATED"])
        elif how == 2:
            x.reset(["MUTATED"])
        else:
            x.clear()
        return n + 1
    return 0


def only_plain(x):
    """The type of the first object that is not plain."""
    if type(x) is dict:
        for k, v in x.items():
            if type(k) is not str:
                return type(k)
            r = only_plain(v)
            if r:
                return r
        return None
    if type(x) is list:
        for v in x:
            r = only_plain(v)
            if r:
                return r
        return None
    if x is None or isinstance(x, (str, int, float)):
        return None
    return type(x)


COPY_FORMS = ["value", "value", "value", "in_dict", "in_list", "in_tuple", "deep", "whole"]
REMOVALS = ["pop", "popitem", "del", "del_slice", "del_deep", "pop_readd"]
RESULTS = ["call", "values", "items", "call_iter", "keys"]


def generate(s, tier):
    cls_name = s.choice(gen.ALL)
    attr = is_attr(cls_name)
    pool = values.SIMPLE_KEYS[:3] if s.boolean() else None
    big = gen.big_ok(cls_name)
    value = gen._memo(values.containers, 3, 3, pool, big=big)
    step = ops.steps([0, 0, 1], gen.swarm(s, ops.DICT_MUTATORS), gen.swarm(s, ops.LIST_MUTATORS), value, pool)
    de = gen.swarm(s, entries.names("dict", attr) + entries.DICT_WHOLE)
    le = gen.swarm(s, entries.names("list") + entries.LIST_WHOLE)
    kinds = gen.swarm(s, ["arg", "result", "removed", "copy", "other", "new", "grab", "step", "default", "search"])

    def action(s):
        kind = s.choice(kinds)
        if kind == "arg":
            return [kind, step(s), s.choice(de), s.choice(le), value(s), s.choice(WRAPS)]
        if kind == "result":
            return [kind, step(s), s.choice(RESULTS)]
        if kind == "removed":
            return [kind, step(s), s.choice(REMOVALS), s.below(4)]
        if kind == "copy":
            return [kind, step(s), step(s), s.choice(de), s.choice(le), s.choice(COPY_FORMS), s.below(4)]
        if kind == "other":
            return [kind, step(s), s.choice(gen.ALL if s.one_in(3) else [cls_name]), s.choice(de), s.choice(le),
                    s.choice(COPY_FORMS), s.below(4), value(s)]
        if kind == "new":
            return [kind, value(s), s.choice(WRAPS), s.boolean(), step(s)]
        return [kind, step(s)]

    return {
        "cls": cls_name,
        "cfg": gen.config(s, cls_name),
        "init": None if s.one_in(6) else gen._memo(values.containers, 4, 3, pool, kind=gen.kind_of(cls_name), big=big)(s),
        "n": s.choice([1, 1, 2]),
        "ctx": cls_name in boot.BUFFERED_CLASSES and s.choice([None, "object", "backend", "tiny"]),
        "actions": s.list(action, 1, 8 if tier == "quick" else 16),
    }


class Run:
    def __init__(self, case, w, ctx, stats, d):
        self.case, self.w, self.ctx, self.stats, self.d = case, w, ctx, stats, d
        self.name = case["cls"]
        self.serial = 0
        self.mutated = 0

    def check(self, what):
        w = self.w
        w.check_objects(what)
        if not self.ctx.stack:
            w.check_resource(what)

    def save_again(self):
        """A save stores whatever the object holds in memory."""
        self.serial += 1
        w = self.w
        for o in w.objs:
            if w.kind == "dict":
                o["again"] = self.serial
                w.model["again"] = self.serial
            else:
                o.append(self.serial)
                w.model.append(self.serial)
        w.changed = True

    def entry(self, m, de, le, value):
        is_dict = type(m) is dict
        entry = de if is_dict else le
        mapping = isinstance(value, (collections.abc.Mapping, boot.lib().SyncedDict))
        sequence = isinstance(value, (collections.abc.Sequence, numpy.ndarray)) and not isinstance(value, str)
        if entry.endswith("_whole"):
            if is_dict and not mapping:
                entry = "setitem"
            elif not is_dict and not sequence:
                entry = "append"
        if entry == "reset_whole" and isinstance(value, collections.deque):
            # Slices of deques are not supported.
            entry = "extend_whole"
        if not is_dict and not m and entry in ("setitem", "setitem_neg", "setslice_step"):
            entry = "append"
        return entry

    def put(self, step, c, m, de, le, value, plain):
        """Store value into c and plain into the model m."""
        entry = self.entry(m, de, le, value)
        if type(m) is dict:
            key = "zz9" if entry == "attr" else ops.pick_key(m, step[5], step[7])
            entries.enter_dict(c, entry, key, value)
            entries.model_dict(m, entry, key, plain)
        else:
            index = step[5] % len(m) if m else 0
            entries.enter_list(c, entry, index, value)
            entries.model_list(m, entry, index, plain)
        self.stats.count(f"entry {type(m).__name__}.{entry}")
        self.w.changed = True
        self.w.refresh(None)
        self.w.handles = []
        return entry

    def arg(self, a):
        _, step, de, le, value, how = a
        actor, path, m, start = self.w.target(step)
        c = self.w.walk(start)
        arg = dress(value, how)
        entry = self.put(step, c, m, de, le, arg, clone(value))
        what = f"after {entry} of {show(value)} ({how}) at {path}"
        self.check(what)
        self.mutated += mutate(arg)
        self.check(f"{what} and mutating the argument")
        self.save_again()
        self.check(f"{what}, mutating the argument and saving again")

    def result(self, a):
        _, step, kind = a
        actor, path, m, start = self.w.target(step)
        c = self.w.walk(start)
        if type(m) is list:
            kind = "call"
        if kind == "call":
            parts = [c()]
        elif kind == "call_iter":
            parts = [c() for _ in range(2)]
        elif kind == "values":
            parts = list(c.values())
        elif kind == "items":
            parts = [v for _, v in c.items()]
        else:
            parts = list(c.keys())
        what = f"{kind} at {path} of {show(self.w.model)}"
        for p in parts:
            t = only_plain(p)
            if t:
                fail(f"{self.name}: the result of {what} contains a {t.__name__}")
            self.mutated += mutate(p)
        self.check(f"after mutating the result of {what}")
        self.save_again()
        self.check(f"after mutating the result of {what} and saving again")
        self.stats.count("result " + kind)

    def removed(self, a):
        _, step, kind, how = a
        w = self.w
        actor, path, m, start = w.target(step)
        c = w.walk(start)
        keys = ops.children(m)
        if not keys:
            return
        k = keys[step[5] % len(keys)]
        plain = clone(m[k])
        what = f"after {kind} of {k!r} at {path} of {show(w.model)}"
        extra = []
        if kind == "popitem" and type(m) is dict:
            k2, removed = c.popitem()
            if k2 not in m:
                fail(f"{self.name}: popitem at {path} of {show(w.model)} returned the key {k2!r}")
            del m[k2]
        elif kind in ("pop", "pop_readd", "popitem"):
            removed = c.pop(k)
            m.pop(k)
        else:
            removed = c[k]
            if kind == "del_deep":
                # Also keep handles of nested containers.
                extra = [removed[j] for j in ops.children(m[k])]
            if kind == "del_slice" and type(m) is list:
                del c[k:k + 1]
                del m[k:k + 1]
            else:
                del c[k]
                del m[k]
        w.changed = True
        w.handles = []
        self.check(what)
        if kind == "pop_readd":
            if type(m) is dict:
                c[k] = clone(plain)
                m[k] = clone(plain)
            else:
                c.insert(k, clone(plain))
                m.insert(k, clone(plain))
        n = 0
        for e in extra + [removed]:
            if isinstance(e, boot.lib().SyncedCollection):
                n += mutate_synced(e, how)
            else:
                n += mutate(e)
        self.mutated += n
        self.check(f"{what} and mutating the removed value")
        self.save_again()
        self.check(f"{what}, mutating the removed value and saving again")
        self.stats.count("removal " + kind)

    def assign(self, step, de, le, form, source, plain):
        """Assign a synced collection; returns what was done."""
        actor, path, m, start = self.w.target(step)
        c = self.w.walk(start)
        if form == "in_dict":
            source, plain = {"s": source, "t": 1}, {"s": plain, "t": 1}
        elif form == "in_list":
            source, plain = [0, source], [0, plain]
        elif form == "in_tuple":
            source, plain = (source,), [plain]
        elif form == "deep":
            source, plain = {"s": [source, {"t": source}]}, {"s": [plain, {"t": clone(plain)}]}
        if form != "whole":
            de = "setitem" if de.endswith("_whole") else de
            le = "append" if le.endswith("_whole") else le
        elif type(m) is dict and isinstance(source, boot.lib().SyncedDict):
            de = ["update_whole", "reset_whole", "pairs_whole"][step[5] % 3]
        elif type(m) is list and isinstance(source, boot.lib().SyncedList):
            le = entries.LIST_WHOLE[step[5] % 4]
        entry = self.put(step, c, m, de, le, source, plain)
        return f"after {entry} of a synced collection ({form}) {show(plain)} at {path}"

    def copy(self, a):
        _, src, dst, de, le, form, how = a
        w = self.w
        actor, path, m, start = w.target(src)
        if len(str(w.model)) > 3000:
            return
        source = w.walk(start)
        what = self.assign(dst, de, le, form, source, clone(m))
        self.check(what)
        # Mutate the source if it is still part of the tree, then all copies.
        chain = w.lookup(path)
        if chain is not None and type(chain[-1]) is type(m):
            c = w.objs[actor]
            for k in path:
                c = c[k]
            n = self.touch(c, chain[-1])
            self.mutated += n
            self.check(f"{what} and mutating the source")
        actor, path, m, start = w.target(dst)
        c = w.objs[actor]
        for k in path:
            c = c[k]
        self.mutated += self.touch(c, m)
        self.check(f"{what} and mutating the target")
        self.stats.count("copy " + form)

    def touch(self, c, m):
        """Mutate all containers of a live tree and of its model."""
        n = 0
        for k in ops.children(m)[:3]:
            n += self.touch(c[k], m[k])
        self.serial += 1
        if type(m) is dict:
            c["touched"] = self.serial
            m["touched"] = self.serial
        else:
            c.append(self.serial)
            m.append(self.serial)
        return n + 1

    def other(self, a):
        _, dst, cls_name, de, le, form, how, value = a
        self.serial += 1
        kind = gen.kind_of(cls_name)
        if kind != type(value).__name__:
            value = {"v": value} if kind == "dict" else [value]
        if not gen.big_ok(self.name) or not gen.big_ok(cls_name):
            # Integers beyond 64 bits cannot be stored by MongoDB.
            value = [1, {"a": [2]}] if kind == "list" else {"a": [1, {"b": {}}]}
        res = make(cls_name, self.d, self.case["cfg"] if "JSON" in cls_name else {}, f"source{self.serial}")
        res.write(value)
        root = res.open()
        source, plain = root, value
        for n in dst[2][:how]:
            ks = ops.children(plain)
            if ks:
                k = ks[n % len(ks)]
                source, plain = source[k], plain[k]
        inside = plain
        what = self.assign(dst, de, le, form, source, clone(plain))
        self.check(what)
        if not same(root(), value):
            fail(f"{self.name}: {what} the source is {show(root())}")
        # Mutate the source.
        self.mutated += self.touch(source, inside)
        self.check(f"{what} and mutating the source")
        # Mutate the target.
        self.touch(self.w.objs[0], self.w.model)
        self.w.handles = []
        self.check(f"{what} and mutating the target")
        if not same(root(), value):
            fail(f"{self.name}: {what} and mutating the target, the source is {show(root())}")
        if not ("Buffered" in cls_name and self.ctx.stack) and not same(res.read(), value):
            fail(f"{self.name}: {what} and mutating the target, the source's resource holds {show(res.read())}")
        self.stats.count("other " + ("same class" if cls_name == self.name else "another class"))

    def new(self, a):
        """Data given to the constructor."""
        _, value, how, synced, step = a
        self.serial += 1
        kind = gen.kind_of(self.name)
        if kind != type(value).__name__:
            value = {"v": value} if kind == "dict" else [value]
        res = make(self.name, self.d, self.case["cfg"], f"new{self.serial}")
        if synced:
            # Another collection as initial data.
            plain = clone(self.w.model)
            arg = self.w.objs[0]
        else:
            plain = clone(value)
            arg = dress(value, how)
        o = res.open(data=arg)
        if synced:
            self.touch(arg, self.w.model)
            self.w.changed = True
            self.w.handles = []
            self.mutated += 1
        else:
            self.mutated += mutate(arg)
        if not same(o(), plain):
            fail(f"{self.name}: mutating the initial data {show(plain)} ({how}) changed the collection to {show(o())}")
        self.touch(o, plain)
        if not same(o(), plain):
            fail(f"{self.name}: mutated to {show(o())} instead of {show(plain)}")
        self.check("after mutating a collection initialized with another one")
        self.stats.count("constructor")

    def default(self, a):
        """Defaults of pop and get do not enter the collection."""
        step = a[1]
        actor, path, m, start = self.w.target(step)
        if type(m) is not dict:
            return
        c = self.w.walk(start)
        arg = clone(step[8])
        for f in (c.get, c.pop):
            got = f("missing key", arg)
            if got is not arg and not same(got, arg):
                fail(f"{self.name}: the default {show(arg)} was returned as {show(got)}")
        self.mutated += mutate(arg)
        self.save_again()
        self.check("after mutating a default")

    def search(self, a):
        """Arguments of searches and comparisons are not kept."""
        step = a[1]
        actor, path, m, start = self.w.target(step)
        c = self.w.walk(start)
        arg = clone(step[8])
        c == arg
        arg in list(c)
        if type(m) is list:
            c.count(arg)
            try:
                c.remove(["not", "in", {"it": arg}])
            except ValueError:
                pass
        self.mutated += mutate(arg)
        self.save_again()
        self.check("after mutating what was searched")


def run(case, stats):
    name = case["cls"]
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(name, d, case["cfg"], case["init"], case["n"], "identity")
        w.exact_order = False
        ctx = buffers.Contexts()
        if case["ctx"] == "object":
            for o in w.objs:
                ctx.enter_object(o)
        elif case["ctx"]:
            ctx.enter_backend(w.res.cls, 0 if case["ctx"] == "tiny" else None)
        r = Run(case, w, ctx, stats, d)
        try:
            for a in case["actions"]:
                # The actions change the model too.
                w.refresh(None)
                if a[0] == "step":
                    w.step(a[1], results=False)
                elif a[0] == "grab":
                    w.grab(a[1])
                else:
                    getattr(r, a[0])(a)
                    stats.count("action " + a[0])
        finally:
            ctx.exit_all()
        r.check("at the end")
        stats.count("class " + name)
        return r.mutated > 0


SCENARIOS = [Scenario("programs", run, generate, quick=30000, thorough=2000000)]
