"""Small multi-threaded programs and their serial executions."""

import json

from . import boot, gen, ops, resources, sched, values
from .engine import case_dir, fail
from .values import clone, show


def setup():
    sched.install()


# -- generation ------------------------------------------------------------------------

DICT_INIT = [
    {"a": 1, "b": {"x": 1, "y": [1, 2]}, "c": [3, {"z": 1}, 4]},
    {"a": {"b": {"c": 1}}, "b": 2},
    {"a": [1, 2, 3], "b": [[1], [2]]},
    {"a": 1, "b": 2, "c": 3},
    {"a": 1},
    {},
    None,
]
LIST_INIT = [
    [1, {"x": 1, "y": [1, 2]}, [3, {"z": 1}, 4]],
    [{"a": {"b": 1}}, 2, 3],
    [[1], [2], [3]],
    [1, 2, 3],
    [1],
    [],
    None,
]


def thread_value(s):
    """Values by which updates can be told apart, with a few containers."""
    n = s.between(10, 99)
    return [n, n, n, {"x": n}, [n], {"x": n, "n": [n]}, [n, {"y": n}], None][s.below(8)]


# The object of handles that stand for a new object on every use.
NEW = -1


def handles(s, init, objects, most=3, new=True):
    """Roots of all objects, and some children obtained in advance: [object, path]."""
    result = [[i, []] for i in range(objects)]
    if new and s.one_in(3):
        result.append([NEW, []])
        if s.one_in(3):
            return [[NEW, []]]
    if init is not None and ops.children(init) and not s.one_in(3):
        for _ in range(s.between(1, most)):
            path, _ = ops.descend(init, s.list(lambda s: s.below(3), 1, 2))
            result.append([s.below(objects), path])
    return result


def step(s, hs, init, dict_ops, list_ops):
    """A concrete operation: [handle, op]."""
    h = s.below(len(hs))
    m = init
    for k in hs[h][1]:
        m = m[k]
    raw = [0, 0, [], s.choice(dict_ops), s.choice(list_ops), s.below(10), s.choice(ops.SIGNED),
           s.choice(values.SIMPLE_KEYS), thread_value(s)]
    return [h, ops.resolve(raw, clone(m))]


def schedule(s, threads):
    def switch(s):
        # Where: at a fraction of all points, or at one of the uses of a lock.
        return [s.below(3), s.below(1000), s.between(-1, 2), s.below(threads)]

    n = [1, 1, 1, 2, 2, 3][s.below(6)]
    return [s.below(threads), [switch(s) for _ in range(n)]]


def schedules(s, threads, n):
    return [schedule(s, threads) for _ in range(n)]


class Base:
    """What is known from executing a program without switches."""

    def __init__(self, s):
        self.points = s.points
        self.first = s.tasks[s.order[0]].done_at
        self.locks = s.locks

    def resolve(self, switches):
        """Turn fractions into points; the first switch suspends the thread that starts."""
        result = []
        limit, total = self.first, self.points
        start = 0
        for kind, at, offset, target in switches:
            locks = [p for p in self.locks if start < p <= limit]
            if kind == 0 and locks:
                p = locks[at * len(locks) // 1000] + offset
            else:
                p = start + 1 + at * (limit - start) // 1000
            p = max(1, p)
            result.append([p, target])
            # Later ones come after it, and mostly soon.
            start, limit = p, p + max(20, (total - p) // (1 + kind))
        return result


def merges(lengths):
    """All interleavings of sequences of these lengths, as tuples of thread numbers."""
    if not any(lengths):
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            rest = list(lengths)
            rest[i] -= 1
            for tail in merges(rest):
                yield (i,) + tail


# -- execution --------------------------------------------------------------------------


def canon(x):
    return json.dumps(x, sort_keys=True, default=repr)


# Reads that return the items themselves. Containers among them may change afterwards.
LIVE = {"getitem", "get", "get_default", "getslice", "iter", "reversed", "keys", "values", "items"}


def surface(x):
    """Plain form of an item, without the content of containers."""
    if isinstance(x, (boot.lib().SyncedDict, dict)):
        return "a dict"
    if isinstance(x, (boot.lib().SyncedList, list)):
        return "a list"
    return x


def outcome(attempted, op):
    """Plain form of what an operation did."""
    status, r = attempted
    if status == "exc":
        return ["exc", type(r).__name__]
    n = op[0]
    if n.startswith("setdefault") or n in LIVE:
        if type(r) is list and n not in ("getitem", "get", "get_default") and not n.startswith("setdefault"):
            r = [tuple(map(surface, x)) if type(x) is tuple else surface(x) for x in r]
            if n in ("items", "values") or all(type(x) is str for x in r):
                # The order of keys is arbitrary.
                r = sorted(r, key=repr)
        else:
            r = surface(r)
        return ["ok", r]
    return ["ok", ops.plain(r)]


def outcomes(threads, results):
    return [[outcome(r, op) for r, (_, op) in zip(rs, t)] for rs, t in zip(results, threads)]


def attempt(fn):
    try:
        return "ok", fn()
    except sched.Abort:
        raise
    except Exception as e:
        return "exc", e


def prepare(cls, toggle):
    """Switch threading support off and on again."""
    if toggle:
        cls.disable_multithreading()
        cls.enable_multithreading()


def follow(c, path):
    for k in path:
        c = c[k]
    return c
