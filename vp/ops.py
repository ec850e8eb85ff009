"""Operations of dict-like and list-like collections, and their built-in models.

A step is a list [actor, src, nav, dict_op, list_op, i, j, key, value]. It navigates from
the actor (or a retained child handle) to a container and performs dict_op or
list_op there, depending on the kind of that container. The remaining entries are
the raw material for arguments; they are resolved against the model, so that most
steps are meaningful whatever happened before.
"""

import ast
import collections
import json

from . import boot, resources, values
from .engine import Violation, fail
from .values import clone, same, show

DICT_MUTATORS = [
    "setitem", "setitem", "setitem", "delitem", "pop", "pop_default", "popitem",
    "clear", "update", "update_pairs", "update_kw", "update_both", "update_none",
    "setdefault", "setdefault", "setdefault_none", "reset",
]
LIST_MUTATORS = [
    "setitem", "setitem", "setslice", "setstep", "delitem", "delslice", "insert",
    "append", "append", "extend", "extend_gen", "iadd", "iadd_gen", "extend_it", "iadd_it",
    "remove", "pop", "pop_i", "clear", "reverse", "reset",
]
DICT_READS = [
    "getitem", "get", "get_default", "contains", "len", "iter", "keys", "values",
    "items", "call", "repr", "str", "eq", "ne", "eq_synced", "bool", "lt",
]
LIST_READS = [
    "getitem", "getslice", "contains", "len", "iter", "reversed", "index",
    "index_range", "count", "call", "repr", "str", "eq", "ne", "lt", "le", "gt", "ge",
    "cmp_synced", "bool",
]
MUTATORS = set(DICT_MUTATORS) | set(LIST_MUTATORS)
READS = set(DICT_READS) | set(LIST_READS)
BULK = {"update", "update_pairs", "update_kw", "update_both", "reset"}


def steps(actors, dict_ops, list_ops, value=None, key_pool=None, srcs=(0, 0, 0, 1, 2), depth=3):
    """Generator of single steps."""
    value = value or values.values(2, 2, key_pool)
    key = values.keys(key_pool)

    def gen(s):
        return [
            s.choice(actors),
            s.choice(srcs),
            # Sometimes to the bottom of a deep tree.
            [0] * s.between(4, 40) if s.one_in(16) else s.list(lambda s: s.below(4), 0, depth),
            s.choice(dict_ops),
            s.choice(list_ops),
            s.below(10),
            s.choice(SIGNED),
            key(s),
            value(s),
        ]

    return gen


SIGNED = [0, 1, -1, 2, -2, 3, -3, 4, -4, 5]


# -- resolving arguments --------------------------------------------------------------


def children(model):
    """Keys of the nested containers."""
    if type(model) is dict:
        return [k for k, v in model.items() if type(v) in (dict, list)]
    return [i for i, v in enumerate(model) if type(v) in (dict, list)]


def descend(model, nav):
    """Follow nav as far as there are containers; return the path taken."""
    path = []
    for n in nav:
        ks = children(model)
        if not ks:
            break
        k = ks[n % len(ks)]
        path.append(k)
        model = model[k]
    return path, model


def pick_key(model, i, key):
    """An existing key for even i, else any key."""
    ks = list(model)
    return ks[(i // 2) % len(ks)] if ks and i % 2 == 0 else key


def pick_elem(model, i, value):
    vs = list(model.values()) if type(model) is dict else list(model)
    return clone(vs[(i // 2) % len(vs)]) if vs and i % 2 == 0 else value


def as_mapping(key, value):
    return value if type(value) is dict else {key: value}


def as_list(value):
    return value if type(value) is list else [value]


def as_index(model, i, j):
    """Mostly valid indices, of either sign."""
    if model and i < 7:
        k = i % len(model) if len(model) < 16 or i < 3 else len(model) * i // 8
        return k - len(model) if j < 0 else k
    return j


def resolve(step, model):
    """Turn the raw material of a step into a concrete operation on the model."""
    _, _, _, dop, lop, i, j, key, value = step
    if type(model) is dict:
        k = pick_key(model, i, key)
        if dop in ("setitem", "setdefault"):
            return [dop, k, value]
        if dop in ("update", "reset", "update_pairs", "update_kw"):
            return [dop, as_mapping(k, value)]
        if dop == "update_both":
            return [dop, as_mapping(k, value), {key: j}]
        if dop in ("eq", "ne", "eq_synced", "lt"):
            return [dop, clone(model) if i % 2 == 0 else as_mapping(k, value)]
        if dop in ("delitem", "pop", "setdefault_none", "getitem", "get", "contains"):
            if i == 9 and dop in ("getitem", "get", "contains", "delitem", "pop"):
                k = [0, None, 1.5, True, [] if dop != "pop" else ()][j % 5]
            return [dop, k]
        if dop in ("pop_default", "get_default"):
            return [dop, k, value]
        return [dop]
    idx = as_index(model, i, j)
    if i == 9 and lop in ("setitem", "getitem", "delitem"):
        idx = ["a", None, 1.5, True, j][j % 5]
    if lop == "setitem":
        return [lop, idx, value]
    if lop in ("insert",):
        return [lop, idx, value]
    if lop in ("delitem", "pop_i", "getitem"):
        return [lop, idx]
    if lop in ("setslice", "delslice", "getslice", "setstep"):
        lo = [None, 0, j, i][i % 4]
        hi = [None, j, i - 3][(i + j) % 3]
        step_ = [None, 1, 2, -1, -2][j % 5] if lop in ("getslice", "delslice") else None
        if lop == "setstep":
            # Slices with a step require as many values as they select.
            step_ = [2, -1, -2, 3, 2][j % 5]
            n = len(range(*slice(lo, hi, step_).indices(len(model))))
            vs = as_list(value) or [None]
            n += i == 9
            return ["setslice", lo, hi, step_, [clone(vs[m % len(vs)]) for m in range(n)]]
        if lop == "setslice":
            return [lop, lo, hi, step_, as_list(value)]
        return [lop, lo, hi, step_]
    if lop in ("extend", "extend_gen", "iadd", "iadd_gen", "reset"):
        return [lop, as_list(value)]
    if lop in ("extend_it", "iadd_it"):
        return [lop, list(ITERABLES)[(i + j) % len(ITERABLES)], as_list(value)]
    if lop == "append":
        return [lop, value]
    if lop in ("remove", "index", "count", "contains"):
        return [lop, pick_elem(model, i, value)]
    if lop == "index_range":
        return [lop, pick_elem(model, i, value), j, [None, i, -1, 0, -i, j, i // 2 + 1][(i + j) % 7]]
    if lop in ("eq", "ne", "lt", "le", "gt", "ge"):
        other = clone(model)
        if i % 4 == 1:
            other = as_list(value)
        elif i % 4 == 2:
            other = other + as_list(value)
        elif i % 4 == 3 and other:
            other[j % len(other)] = value
        return [lop, other]
    if lop == "cmp_synced":
        other = clone(model) if i % 2 == 0 else clone(model)[: i // 2] + as_list(value)
        return [lop, ["eq", "ne", "lt", "le", "gt", "ge"][j % 6], other]
    return [lop]


# Lists can be extended by all iterables.
ITERABLES = {
    "tuple": tuple,
    "characters": lambda vs: "aé☺\x00"[: len(vs)],
    "bytes": lambda vs: bytes(range(len(vs))),
    "keys": lambda vs: {str(i): v for i, v in enumerate(vs)},
    "values": lambda vs: {str(i): v for i, v in enumerate(vs)}.values(),
    "range": lambda vs: range(-1, len(vs)),
    "map": lambda vs: map(lambda v: v, vs),
    "deque": collections.deque,
    "reversed": reversed,
    "indexed": lambda vs: Indexed(vs),
}


class Indexed:
    """Iterable, but only by __getitem__."""

    def __init__(self, values):
        self.values = values

    def __getitem__(self, i):
        return self.values[i]


# -- performing operations ------------------------------------------------------------


def plain(x):
    """Convert results to plain data."""
    if isinstance(x, boot.lib().SyncedCollection):
        return x()
    if type(x) is tuple:
        return tuple(plain(v) for v in x)
    if type(x) is list:
        return [plain(v) for v in x]
    if type(x) is dict:
        return {k: plain(v) for k, v in x.items()}
    return x


def _cmp(name, a, b):
    if name == "eq":
        return a == b
    if name == "ne":
        return a != b
    if name == "lt":
        return a < b
    if name == "le":
        return a <= b
    if name == "gt":
        return a > b
    return a >= b


def perform(c, op, synced, make=None):
    """Perform a concrete operation on a synced collection or a built-in one.

    make(kind, data) binds another synced collection to data.
    """
    n, a = op[0], op[1:]
    if n == "setitem":
        c[a[0]] = a[1]
        return None
    if n == "delitem":
        del c[a[0]]
        return None
    if n == "pop":
        if a:
            return c.pop(*a) if synced else c.pop(a[0], None)
        return c.pop()
    if n in ("pop_default", "pop_i"):
        return c.pop(*a)
    if n == "popitem":
        return c.popitem()
    if n == "clear":
        return c.clear()
    if n == "update":
        return c.update(a[0])
    if n == "update_pairs":
        pairs = [list(p) if i % 2 else tuple(p) for i, p in enumerate(a[0].items())]
        return c.update([pairs, iter(pairs), tuple(pairs)][len(pairs) % 3])
    if n == "update_kw":
        return c.update(**a[0])
    if n == "update_both":
        return c.update(a[0], **a[1])
    if n == "update_none":
        return c.update()
    if n in ("setdefault", "setdefault_none"):
        return c.setdefault(*a)
    if n == "reset":
        if synced:
            return c.reset(a[0])
        if type(c) is dict:
            c.clear()
            c.update(a[0])
        else:
            c[:] = a[0]
        return None
    if n == "setslice":
        c[slice(*a[:3])] = a[3]
        return None
    if n == "delslice":
        del c[slice(*a[:3])]
        return None
    if n == "insert":
        return c.insert(*a)
    if n == "append":
        return c.append(a[0])
    if n == "extend":
        return c.extend(a[0])
    if n == "extend_gen":
        return c.extend(v for v in a[0])
    if n == "iadd":
        d = c
        d += a[0]
        return d is c
    if n == "extend_it":
        return c.extend(ITERABLES[a[0]](a[1]))
    if n == "iadd_it":
        d = c
        d += ITERABLES[a[0]](a[1])
        return d is c
    if n == "iadd_gen":
        d = c
        d += (v for v in a[0])
        return d is c
    if n == "remove":
        return c.remove(a[0])
    if n == "reverse":
        return c.reverse()
    # reads
    if n == "getitem":
        return c[a[0]]
    if n == "getslice":
        return c[slice(*a)]
    if n in ("get", "get_default"):
        return c.get(*a)
    if n == "contains":
        return a[0] in c
    if n == "len":
        return len(c)
    if n == "bool":
        return bool(c)
    if n == "iter":
        return list(c)
    if n == "reversed":
        return list(reversed(c))
    if n == "keys":
        return list(c.keys())
    if n == "values":
        return list(c.values())
    if n == "items":
        return [tuple(x) for x in c.items()]
    if n == "call":
        return c() if synced else clone(c)
    if n in ("repr", "str"):
        return ast.literal_eval(repr(c) if n == "repr" else str(c))
    if n == "index":
        return c.index(a[0])
    if n == "index_range":
        return c.index(a[0], a[1]) if a[2] is None else c.index(a[0], a[1], a[2])
    if n == "count":
        return c.count(a[0])
    if n in ("eq", "ne", "lt", "le", "gt", "ge"):
        return _cmp(n, c, a[0])
    if n == "eq_synced":
        return c == (make("dict", a[0]) if synced else a[0])
    if n == "cmp_synced":
        return _cmp(a[0], c, make("list", a[1]) if synced else a[1])
    raise AssertionError(n)


# Only what a built-in container may raise is an outcome; anything else is a bug.
OUTCOMES = (KeyError, IndexError, ValueError, TypeError)


def attempt(c, op, synced, make=None):
    try:
        return "ok", perform(c, clone_args(op), synced, make)
    except OUTCOMES as e:
        return "exc", e


def clone_args(op):
    return [clone(x) for x in op]


def unordered(op, result):
    """Results whose order is that of the keys of a dict."""
    n = op[0]
    if n in ("iter", "keys"):
        return sorted(result, key=repr) if isinstance(result, list) else result
    if n == "items":
        return sorted(result, key=lambda p: repr(p[0]))
    if n == "values":
        return sorted(result, key=lambda v: json.dumps(v, sort_keys=True, default=repr))
    return result


def same_result(a, b):
    if type(a) is tuple or type(b) is tuple:
        return (
            type(a) is type(b)
            and len(a) == len(b)
            and all(map(same_result, a, b))
        )
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(map(same_result, a, b))
    return same(a, b)


class Outcome:
    __slots__ = ("op", "path", "model", "lib", "mutated", "actor", "kind")


class Handle:
    __slots__ = ("actor", "path", "synced", "chain")


class World:
    """Collections bound to one resource, next to a plain model of its content.

    policy decides what happens to retained handles when the containers they came from are
    replaced through another object: "position" keeps them as long as the kinds
    along their path stay the same, "shared" additionally requires that no list
    position was shifted, "identity" drops them.
    """

    def __init__(self, cls_name, directory, config=None, initial=None, objects=1, policy="position", name="r"):
        self.res = resources.make(cls_name, directory, config, name)
        self.kind = self.res.kind
        self.dir = directory
        self.cls_name = cls_name
        self.config = config
        if initial is None:
            self.model = self.res.empty()
        else:
            self.model = clone(initial)
            self.res.write(self.model, (config or {}).get("fmt", 0))
        self.objs = [self.res.open() for _ in range(objects)]
        self.handles = []
        self.policy = policy
        # The JSON codec of zarr sorts keys.
        self.exact_order = objects == 1 and not cls_name.startswith("Zarr")
        self.serial = 0
        self.changed = False

    def make(self, kind, data):
        """Another collection of the same backend holding data."""
        self.serial += 1
        cls_name = self.cls_name
        for k in ("Dict", "List"):
            if cls_name.endswith(k):
                cls_name = cls_name[: -len(k)] + kind.capitalize()
        res = resources.make(cls_name, self.dir, self.config, f"{self.res.name}-other{self.serial}")
        res.write(data)
        return res.open()

    # navigation

    def lookup(self, path, start=None):
        """Chain of model containers along a path, or None."""
        m = self.model if start is None else start
        chain = [m]
        for k in path:
            try:
                m = m[k]
            except (KeyError, IndexError, TypeError):
                return None
            if type(m) not in (dict, list):
                return None
            chain.append(m)
        return chain

    def refresh(self, actor):
        kept = []
        for h in self.handles:
            chain = self.lookup(h.path)
            if chain is None or any(type(a) is not type(b) for a, b in zip(chain, h.chain)):
                continue
            if any(a is not b for a, b in zip(chain, h.chain)):
                if h.actor == actor or self.policy == "identity":
                    continue
                first = next(i for i, (a, b) in enumerate(zip(chain, h.chain)) if a is not b)
                if self.policy == "shared" and first and type(chain[first - 1]) is list:
                    continue
                h.chain = chain
            kept.append(h)
        self.handles = kept

    def target(self, step):
        """Resolve the container of a step: (actor, path, model, getter)."""
        actor, src, nav = step[:3]
        if actor >= 0:
            actor %= len(self.objs)
        if src and self.handles and actor >= 0:
            h = self.handles[(src - 1) % len(self.handles)]
            rel, m = descend(h.chain[-1], nav)
            return h.actor, h.path + rel, m, (h.synced, rel)
        path, m = descend(self.model, nav)
        return actor, path, m, (self.objs[actor] if actor >= 0 else None, path)

    @staticmethod
    def walk(start):
        c, rel = start
        for k in rel:
            if not isinstance(c, boot.lib().SyncedCollection):
                break
            c = c[k]
        if not isinstance(c, boot.lib().SyncedCollection):
            fail(f"following {rel} leads to {type(c).__name__} {show(c)} instead of a synced container")
        return c

    def grab(self, step):
        actor, path, m, start = self.target(step)
        if actor < 0 or not path:
            return
        h = Handle()
        h.actor, h.path = actor, path
        h.chain = self.lookup(path)
        h.synced = self.walk(start)
        self.handles.append(h)
        if len(self.handles) > 4:
            self.handles.pop(0)

    # performing a step

    def step(self, step, results=True):
        """Perform a step on the library and on the model and compare the results."""
        actor, path, m, start = self.target(step)
        op = resolve(step, m)
        out = Outcome()
        out.op, out.path, out.actor, out.kind = op, path, actor, type(m).__name__
        if op[0] in BULK or actor < 0:
            self.exact_order = False
        before = clone(m)
        if actor < 0:
            # An outside writer.
            out.model = attempt(m, op, False)
            out.lib = None
            out.mutated = not values.same_order(before, m)
            self.res.write(self.model, how=step[5] + step[6] + 4)
            self.refresh(None)
            return out
        c = self.walk(start)
        out.lib = attempt(c, op, True, self.make)
        if op[0] == "popitem" and m and out.lib[0] == "ok" and not self.exact_order:
            # Any item may be removed.
            got = plain(out.lib[1])
            if type(got) is not tuple or len(got) != 2 or got[0] not in m:
                fail(f"popitem() of {show(before)} returned {show(got)}")
            out.model = "ok", (got[0], m.pop(got[0]))
        else:
            out.model = attempt(m, op, False)
        out.mutated = not values.same_order(before, m)
        self.changed |= out.mutated
        if results:
            self.compare(out, before)
        elif out.model[0] != out.lib[0]:
            self.compare(out, before)
        self.refresh(actor)
        return out

    def compare(self, out, before):
        (ms, mr), (ls, lr) = out.model, out.lib
        where = f"{self.cls_name} at {out.path}: {show(out.op)} on {show(before)}"
        if ms == "exc":
            if ls != "exc":
                fail(f"{where} returned {show(plain(lr))}, built-in raises {mr!r}")
            if not isinstance(lr, type(mr)):
                fail(f"{where} raised {lr!r}, built-in raises {mr!r}")
            return
        if ls == "exc":
            fail(f"{where} raised {lr!r}, built-in returns {show(mr)}")
        a, b = plain(lr), plain(mr)
        if out.kind == "dict" and not self.exact_order:
            a, b = unordered(out.op, a), unordered(out.op, b)
        if not same_result(a, b):
            fail(f"{where} returned {show(a)}, built-in returns {show(b)}")

    def check_resource(self, what=""):
        data = self.res.read()
        if data is resources.MISSING and not self.changed:
            # Nothing was ever stored: a missing resource is as good as an empty one.
            data = self.res.empty()
        if not same(data, self.model):
            fail(f"{self.cls_name}: resource holds {show(data)}, expected {show(self.model)} {what}")

    def check_objects(self, what=""):
        for i, o in enumerate(self.objs):
            data = o()
            if not same(data, self.model):
                fail(f"{self.cls_name}: object {i} shows {show(data)}, expected {show(self.model)} {what}")


__all__ = ["World", "Violation"]
