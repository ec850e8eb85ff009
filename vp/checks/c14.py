"""C14: readers next to writers."""

import itertools

from .. import boot, buffers, gen, ops, resources, sched, threads
from ..engine import Scenario, case_dir, fail
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case is a program of 1-2 reader threads (1-3 reads each, among them navigation to a child that is read later) and 1-2 "
    "writer threads (1-2 mutating operations each) on one or two objects on one file, objects opened for the operation and children "
    "obtained in advance, at times next to a thread that writes another file, unbuffered or in backend-wide or per-object buffered contexts of both strategies, together with "
    "schedules. An evaluation is one executed schedule under the deterministic scheduler. The start and end of all "
    "operations are recorded; there must be an order of all operations, respecting which ones ended before others started, in which built-in containers "
    "give the same results and the final content. Non-trivial: a read and a write overlapped."
)
ASSUMPTIONS = [
    "Threads are exchanged between lines of library code, not within a line.",
    "The content shown by a child that was removed from its collection or replaced is not specified; reading it must not fail.",
]
BUDGET = {"quick": 80, "thorough": 600}
TECHNIQUE = "generated multi-threaded programs under a deterministic scheduler, linearizability checking of recorded histories"

DICT_READS = ["getitem", "getitem", "get", "get_default", "len", "iter", "call", "call", "eq", "ne", "contains", "keys", "values", "items", "bool", "repr", "str"]
LIST_READS = ["getitem", "getitem", "getslice", "len", "iter", "call", "call", "eq", "lt", "contains", "index", "count", "reversed", "bool", "repr", "str"]
DICT_WRITES = [op for op in ops.DICT_MUTATORS if op != "popitem"]
LIST_WRITES = list(ops.LIST_MUTATORS)
CAPACITIES = [None, 0, 1, 2, 30, 60, 10**6]
CLASSES = ["JSONDict", "JSONList"] * 3 + list(boot.JSON_CLASSES)
setup = threads.setup


# Steps: ["op", handle, op], ["nav", handle, key], ["child", op]: the last one reads the result of the latest "nav".


class Program:
    def __init__(self, case, d):
        self.case = case
        self.res = resources.make(case["cls"], d, {"wc": case["wc"]}, "f")
        if case["init"] is not None:
            self.res.write(case["init"])
        threads.prepare(self.res.cls, case["toggle"])
        self.objs = [self.res.open() for _ in range(case["objects"])]
        self.other = resources.make(case["cls"], d, {"wc": case["wc"]}, "other")
        self.other_obj = self.other.open()
        self.ctx = buffers.Contexts()
        if case["context"] == "backend":
            self.ctx.enter_backend(self.res.cls, case["capacity"])
        elif case["context"] == "objects":
            for o in self.objs:
                self.ctx.enter_object(o)
        self.handles = [None if o == threads.NEW else threads.follow(self.objs[o], path) for o, path in case["handles"]]
        self.results = [[None] * len(t) for t in case["threads"]]
        self.times = [[None] * len(t) for t in case["threads"]]
        self.clock = itertools.count()

    def target(self, h):
        return self.res.open() if self.handles[h] is None else self.handles[h]

    def run_other(self, n):
        """Write another file, which may cause flushes."""
        for i in range(n):
            if self.case["cls"].endswith("List"):
                self.other_obj.append(i)
            else:
                self.other_obj[f"k{i}"] = i

    def run(self, t):
        if t >= len(self.case["threads"]):
            return self.run_other(self.case["others"])
        slot = None
        for i, step in enumerate(self.case["threads"][t]):
            start = next(self.clock)
            if step[0] == "op":
                op = step[2]
                r = threads.attempt(lambda: ops.perform(self.target(step[1]), ops.clone_args(op), True))
            elif step[0] == "nav":
                op = ["getitem"]
                r = threads.attempt(lambda: self.target(step[1])[step[2]])
                slot = r[1] if isinstance(r[1], boot.lib().SyncedCollection) else None
            elif slot is None:
                r = None
            else:
                op = kind_of_op(step, isinstance(slot, boot.lib().SyncedDict))
                r = threads.attempt(lambda: ops.perform(slot, ops.clone_args(op), True))
            self.times[t][i] = [start, next(self.clock)]
            self.results[t][i] = ["skipped"] if r is None else outcome(r, op)

    def finish(self):
        self.ctx.exit_all()
        final = self.res.content()
        for o in self.objs:
            if not same(o(), final):
                fail(f"an object shows {show(o())} at the end, but the file holds {show(final)}")
        n = self.case["others"]
        written = list(range(n)) if self.case["cls"].endswith("List") else {f"k{i}": i for i in range(n)}
        if n and not same(self.other.content(), written):
            fail(f"the file written next to it holds {show(self.other.content())} instead of {show(written)}")
        return final


def outcome(attempted, op):
    """Plain form of a result; removed containers may be changed through other handles."""
    if op[0] in ("pop", "pop_i", "pop_default") and attempted[0] == "ok":
        return ["ok", threads.surface(attempted[1])]
    return threads.outcome(attempted, op)


def kind_of_op(step, is_dict):
    return step[1] if is_dict else step[2]


class History:
    """Decides whether a recorded history is that of some order on built-in containers."""

    def __init__(self, case, results, times, final):
        self.case = case
        self.threads = case["threads"]
        self.results = [[threads.canon(r) for r in rs] for rs in results]
        self.times = times
        self.final = threads.canon(final)
        self.uncertain = False

    def replay(self, order):
        """State after performing the operations in this order; None if results differ."""
        case = self.case
        root = clone(case["init"])
        if root is None:
            root = [] if case["cls"].endswith("List") else {}
        handles = [(threads.follow(root, path), path) for _, path in case["handles"]]
        slots = [(None, None)] * len(self.threads)
        at = [0] * len(self.threads)
        lost = set()  # containers that were not always where they had been found
        for t in order:
            for m, path in handles + slots:
                if m is not None and not attached(root, m, path):
                    lost.add(id(m))
            i = at[t]
            at[t] += 1
            step = self.threads[t][i]
            result = self.results[t][i]
            if step[0] == "child":
                if slots[t][0] is None:
                    r = ["skipped"]
                else:
                    m, path = slots[t]
                    op = kind_of_op(step, type(m) is dict)
                    if id(m) in lost:
                        if result == threads.canon(["skipped"]):
                            return None
                        continue
                    r = outcome(threads.attempt(lambda: ops.perform(m, ops.clone_args(op), False)), op)
            else:
                m, path = handles[step[1]]
                if id(m) in lost:
                    if step[0] == "nav":
                        slots[t] = (None, None)
                    if step[0] == "nav" or step[2][0] in ops.MUTATORS:
                        # What that does is up to the library.
                        self.uncertain = True
                        return None
                    continue
                if step[0] == "nav":
                    r = threads.attempt(lambda: m[step[2]])
                    slots[t] = (r[1], path + [step[2]]) if type(r[1]) in (dict, list) else (None, None)
                    r = outcome(r, ["getitem"])
                else:
                    op = step[2]
                    r = outcome(threads.attempt(lambda: ops.perform(m, ops.clone_args(op), False)), op)
            if threads.canon(r) != result:
                return None
        return root

    def explained(self):
        lengths = [len(t) for t in self.threads]
        total = sum(lengths)

        def search(order, at):
            root = self.replay(order)
            if root is None:
                return False
            if len(order) == total:
                return threads.canon(root) == self.final
            pending = [t for t, n in enumerate(at) if n < lengths[t]]
            for t in pending:
                # It may be next unless another one ended before it started.
                start = self.times[t][at[t]][0]
                if all(self.times[u][at[u]][1] > start for u in pending if u != t):
                    at[t] += 1
                    if search(order + [t], at):
                        return True
                    at[t] -= 1
            return False

        return search([], [0] * len(lengths))


def attached(root, m, path):
    try:
        return threads.follow(root, path) is m
    except (KeyError, IndexError, TypeError):
        return False


def overlaps(case, times):
    """Did a read and a write overlap?"""
    spans = [[], []]
    for steps, ts in zip(case["threads"], times):
        for step, span in zip(steps, ts):
            spans[step[0] == "op" and step[2][0] in ops.MUTATORS].append(span)
    return any(a < d and c < b for a, b in spans[0] for c, d in spans[1])


def execute(case, first, switches, stats):
    with case_dir() as d:
        p = Program(case, d)
        n = len(case["threads"]) + bool(case["others"])
        s = sched.Scheduler([lambda t=t: p.run(t) for t in range(n)], [first], switches)
        s.run()
        stats.evals()
        shown = {k: case[k] for k in ("cls", "init", "objects", "handles", "context", "capacity", "threads", "others")}
        what = f"{show(shown, 700)}, starting with thread {first}, switches {switches}"
        if s.overrun or s.deadlock:
            boot.reload()
            sched.watch_lines()
            if s.deadlock:
                fail(f"{what}: deadlock: {s.deadlock}")
            stats.count("inconclusive")
            return s, False
        final = p.finish()
        h = History(case, p.results, p.times, final)
        if not h.explained():
            if h.uncertain:
                stats.count("depends on a detached child")
                return s, False
            fail(
                f"{what}: no order of the operations explains the results {show(p.results, 400)} "
                f"with the final content {show(final)}; start and end: {p.times}"
            )
        return s, overlaps(case, p.times)


def run(case, stats):
    base = {}
    nontrivial = False
    for first, switches in case["schedules"]:
        if first not in base:
            base[first] = threads.Base(execute(case, first, [], stats)[0])
        s, overlapped = execute(case, first, base[first].resolve(switches), stats)
        nontrivial |= overlapped
        if overlapped:
            stats.count("schedules with overlapping read and write")
    stats.count(f"context {case['context']}")
    for t in case["threads"]:
        for step in t:
            stats.count(step[0] if step[0] != "op" else step[2][0])
    return nontrivial


def generate_search(s, tier):
    """Lists of containers that are searched while elements move."""
    return generate(s, tier, True)


SEARCHED = [[[1], [2], [3]], [{"a": 1}, {"a": 2}], [1, [1], [2], 2], [[1], [1], [2]], [{"a": 1}, [1], {"a": 2}, [2]]]


def generate(s, tier, search=False):
    cls_name = s.choice(CLASSES)
    is_list = cls_name.endswith("List")
    init = s.choice(threads.LIST_INIT if is_list else threads.DICT_INIT)
    if search:
        cls_name = s.choice([c for c in boot.JSON_CLASSES if c.endswith("List")])
        is_list = True
        init = s.choice(SEARCHED)
    content = init if init is not None else ([] if is_list else {})
    objects = s.between(1, 2)
    buffered = cls_name in boot.BUFFERED_CLASSES
    context = s.choice(["backend", "objects", "backend", None]) if buffered else None
    hs = threads.handles(s, init, objects, 2, context != "objects")
    dict_writes = gen.swarm(s, DICT_WRITES)
    list_writes = gen.swarm(s, LIST_WRITES)
    dict_reads = gen.swarm(s, DICT_READS)
    list_reads = gen.swarm(s, LIST_READS)
    if search:
        list_reads = ["contains", "index", "count"]
        list_writes = ["reverse", "reverse", "insert", "pop_i", "setitem", "setslice", "reset"]

    def resolved(s, m):
        raw = [0, 0, [], s.choice(dict_reads), s.choice(list_reads), s.below(10), s.choice(ops.SIGNED),
               s.choice(["a", "b", "c", "x"]), threads.thread_value(s)]
        return ops.resolve(raw, clone(m))

    def read(s):
        k = s.below(6)
        h = s.below(len(hs))
        m = threads.follow(content, hs[h][1])
        keys = ops.children(m)
        if k == 0 and keys:
            return [["nav", h, keys[s.below(len(keys))]], ["child", resolved(s, {"x": 1, "y": 2}), resolved(s, [1, 2])]]
        return [["op", h, resolved(s, m)]]

    def write(s):
        if search and s.boolean():
            # All elements change their places at once.
            roots = [h for h in range(len(hs)) if not hs[h][1]]
            k = s.between(1, len(content) - 1)
            if roots:
                return ["op", s.choice(roots), ["reset", clone(content[k:] + content[:k])]]
        return ["op"] + threads.step(s, hs, content, dict_writes, list_writes)

    readers = s.choice([[1], [1], [2], [1, 1], [3]])
    writers = s.choice([[1], [1], [2], [1, 1]])
    programs = [sum((read(s) for _ in range(n)), []) for n in readers]
    programs += [[write(s) for _ in range(n)] for n in writers]
    case = {
        "cls": cls_name,
        "wc": s.below(2),
        "init": init,
        "objects": objects,
        "handles": hs,
        "context": context,
        "toggle": s.one_in(4),
        "others": s.below(3) if s.one_in(3) else 0,
        "capacity": s.choice(CAPACITIES),
        "threads": programs,
    }
    case["schedules"] = threads.schedules(s, len(programs) + bool(case["others"]), 12)
    return case


SCENARIOS = [
    Scenario("search", run, generate_search, quick=2000, thorough=60000, own_evals=True),
    Scenario("programs", run, generate, quick=20000, thorough=1000000, own_evals=True),
]
