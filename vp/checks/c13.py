"""C13: buffered collections stay consistent under concurrent threads."""

from .. import boot, buffers, gen, ops, resources, sched, threads
from ..engine import Scenario, case_dir, fail
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case is a program of 2-4 threads with 1-2 operations each on 1-3 objects bound to 1-2 files (dict-like and list-like, "
    "also objects opened for the operation and children obtained within the context), executed inside backend-wide contexts with a given capacity after some "
    "operations that fill the buffer, together with schedules. Threads read only objects no other thread uses. An evaluation is "
    "one executed schedule under the deterministic scheduler. For every file, the results of its operations and its content after leaving the context "
    "must be those of one serial order on built-in containers, or of the library where "
    "it depends on the order whether a child still belongs to its collection; all buffer sizes must be 0. "
    "Non-trivial: a thread was suspended in the middle of an operation and at least two operations were to change contents."
)
ASSUMPTIONS = ["Threads are exchanged between lines of library code, not within a line."]
BUDGET = {"quick": 80, "thorough": 600}
TECHNIQUE = "generated multi-threaded buffered programs under a deterministic scheduler against all serial orders"

DICT_OPS = ["setitem", "setitem", "delitem", "update", "update_kw", "setdefault", "setdefault_none", "reset", "clear", "pop_default"]
LIST_OPS = ["setitem", "delitem", "append", "append", "extend", "iadd", "insert", "reset", "clear", "setslice", "pop"]
DICT_READS = ["getitem", "get", "len", "iter", "call", "eq", "contains", "values"]
LIST_READS = ["getitem", "len", "iter", "call", "eq", "contains", "count"]
# Bytes, and files for the shared-memory strategy.
CAPACITIES = [None, 0, 1, 2, 15, 30, 60, 120, 10**6]
setup = threads.setup


class Program:
    def __init__(self, case, d):
        cfg = {"wc": case["wc"]}
        self.case = case
        self.rs = [resources.make(case["family"] + f["kind"], d, cfg, f"f{i}") for i, f in enumerate(case["files"])]
        for r, f in zip(self.rs, case["files"]):
            if f["init"] is not None:
                r.write(f["init"])
        self.classes = list(dict.fromkeys(r.cls for r in self.rs))
        for cls in self.classes:
            threads.prepare(cls, case["toggle"])
        self.objs = [None if o in case["new"] else self.rs[f].open() for o, f in enumerate(case["objects"])]
        self.ctx = buffers.Contexts()
        for cls in self.classes:
            self.ctx.enter_backend(cls, case["capacity"])
        self.handles = [None if o in case["new"] else threads.follow(self.objs[o], path) for o, path in case["handles"]]
        for h, op in case["before"]:
            threads.attempt(lambda: ops.perform(self.target(h), ops.clone_args(op), True))
        self.threads = case["threads"]
        self.results = [[None] * len(t) for t in self.threads]

    def do(self, t, i):
        h, op = self.threads[t][i]
        self.results[t][i] = threads.attempt(lambda: ops.perform(self.target(h), ops.clone_args(op), True))

    def target(self, h):
        return self.rs[file_of(self.case, h)].open() if self.handles[h] is None else self.handles[h]

    def outcomes(self):
        """Leave the context and return [results, content] of every file."""
        self.ctx.exit_all()
        results = threads.outcomes(self.threads, self.results)
        for cls in self.classes:
            if cls.get_current_buffer_size() != 0:
                fail(f"the buffer size of {cls.__name__} is {cls.get_current_buffer_size()} after leaving the context")
            if cls.backend_is_buffered():
                fail(f"{cls.__name__} is still buffered after leaving the context")
        contents = [r.content() for r in self.rs]
        for f, o in zip(self.case["objects"], self.objs):
            if o is not None and not same(o(), contents[f]):
                fail(f"an object shows {show(o())} after leaving the context, but its file holds {show(contents[f])}")
        return split(self.case, results, contents)


def file_of(case, h):
    return case["objects"][case["handles"][h][0]]


def split(case, results, contents):
    """Separate the outcomes of the files."""
    out = []
    for f, content in enumerate(contents):
        part = [[r for r, (h, _) in zip(rs, t) if file_of(case, h) == f] for rs, t in zip(results, case["threads"])]
        out.append(threads.canon([part, content]))
    return out


def serial(case):
    """For every file the outcomes of all serial orders."""
    allowed = []
    fallback = None
    for f in range(len(case["files"])):
        own = [[(h, op) for h, op in t if file_of(case, h) == f] for t in case["threads"]]
        part = set()
        for order in threads.merges([len(t) for t in own]):
            out = on_builtins(case, f, own, order)
            if out is None:
                break
            part.add(threads.canon(out))
        else:
            allowed.append(part)
            continue
        if fallback is None:
            fallback = by_library(case)
        allowed.append(fallback[f])
    return allowed


def by_library(case):
    allowed = [set() for _ in case["files"]]
    for order in threads.merges([len(t) for t in case["threads"]]):
        with case_dir() as d:
            p = Program(case, d)
            at = [0] * len(case["threads"])
            for t in order:
                p.do(t, at[t])
                at[t] += 1
            for a, out in zip(allowed, p.outcomes()):
                a.add(out)
    return allowed


def on_builtins(case, f, own, order):
    """The outcome for built-in containers; None if a handle loses its container."""
    root = clone(case["files"][f]["init"])
    if root is None:
        root = [] if case["files"][f]["kind"] == "List" else {}
    handles = {h: threads.follow(root, path) for h, (o, path) in enumerate(case["handles"]) if case["objects"][o] == f}

    def perform(h, op):
        result = threads.attempt(lambda: ops.perform(handles[h], ops.clone_args(op), False))
        for i, m in handles.items():
            try:
                if threads.follow(root, case["handles"][i][1]) is not m:
                    return None
            except (KeyError, IndexError, TypeError):
                return None
        return result

    for h, op in case["before"]:
        if h in handles and perform(h, op) is None:
            return None
    at = [0] * len(own)
    results = [[None] * len(t) for t in own]
    for t in order:
        h, op = own[t][at[t]]
        r = results[t][at[t]] = perform(h, op)
        if r is None:
            return None
        at[t] += 1
    return [threads.outcomes(own, results), root]


def execute(case, first, switches):
    with case_dir() as d:
        p = Program(case, d)

        def body(t):
            return lambda: [p.do(t, i) for i in range(len(case["threads"][t]))]

        s = sched.Scheduler([body(t) for t in range(len(case["threads"]))], [first], switches)
        s.run()
        what = describe(case, first, switches)
        if s.overrun or s.deadlock:
            boot.reload()
            sched.watch_lines()
            if s.deadlock:
                fail(f"{what}: deadlock: {s.deadlock}")
            return s, None
        lib = boot.lib()
        for rs, t in zip(p.results, case["threads"]):
            for (status, r), (_, op) in zip(rs, t):
                if status == "exc" and isinstance(r, (lib.BufferedError, lib.MetadataError)):
                    fail(f"{what}: {op} raised {type(r).__name__}")
        try:
            return s, p.outcomes()
        except (lib.BufferedError, lib.MetadataError) as e:
            fail(f"{what}: leaving the context raised {type(e).__name__}")


def describe(case, first, switches):
    shown = {k: case[k] for k in ("family", "files", "objects", "new", "handles", "capacity", "before", "threads")}
    return f"{show(shown, 700)}, starting with thread {first}, switches {switches}"


def run(case, stats):
    allowed = serial(case)
    base = {}
    nontrivial = False
    several = sum(op[0] in ops.MUTATORS for t in case["threads"] for _, op in t) > 1
    for first, switches in case["schedules"]:
        if first not in base:
            s, out = execute(case, first, [])
            base[first] = threads.Base(s)
            check(case, allowed, out, first, [])
            stats.evals()
        resolved = base[first].resolve(switches)
        s, out = execute(case, first, resolved)
        stats.evals()
        if out is None:
            stats.count("inconclusive")
            continue
        check(case, allowed, out, first, resolved)
        nontrivial |= several and s.exchanged > 1
        stats.count(f"exchanges {min(s.exchanged, 6)}")
    stats.count(f"capacity {case['capacity']}")
    stats.count(f"{len(case['files'])} files, {len(case['objects'])} objects")
    for t in case["threads"]:
        for h, op in t:
            stats.count(("child " if case["handles"][h][1] else "root ") + op[0])
    return nontrivial


def check(case, allowed, out, first, switches):
    for f, (a, o) in enumerate(zip(allowed, out)):
        if o not in a:
            fail(
                f"{describe(case, first, switches)}: outcome {show(o, 400)} of file {f} is not that of any serial order, "
                f"e.g. {show(sorted(a)[:3], 600)}"
            )


def generate(s, tier):
    family = s.choice(["BufferedJSON", "MemoryBufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSONAttr"])
    files = []
    for _ in range(s.between(1, 2)):
        kind = s.choice(["Dict", "List"])
        files.append({"kind": kind, "init": s.choice(threads.LIST_INIT if kind == "List" else threads.DICT_INIT)})
    objects = list(range(len(files))) + s.list(lambda s: s.below(len(files)), 0, 2)
    # Objects that are opened anew on every use.
    new = [o for o in range(len(objects)) if s.one_in(5)]
    handles = []
    for o, f in enumerate(objects):
        handles.append([o, []])
        init = files[f]["init"]
        if o not in new and init and ops.children(init) and s.boolean():
            handles.append([o, ops.descend(init, s.list(lambda s: s.below(3), 1, 2))[0]])

    def step(s, usable, reads=()):
        h = usable[s.below(len(usable))]
        o, path = handles[h]
        f = files[objects[o]]
        m = clone(f["init"]) if f["init"] is not None else ([] if f["kind"] == "List" else {})
        m = threads.follow(m, path)
        dict_ops, list_ops = dict_pool, list_pool
        if h in reads and s.one_in(3):
            dict_ops, list_ops = DICT_READS, LIST_READS
        raw = [0, 0, [], s.choice(dict_ops), s.choice(list_ops), s.below(10), s.choice(ops.SIGNED), s.choice(["a", "b", "c", "n"]),
               threads.thread_value(s)]
        return [h, ops.resolve(raw, m)]

    dict_pool = gen.swarm(s, DICT_OPS)
    list_pool = gen.swarm(s, LIST_OPS)
    everything = list(range(len(handles)))
    before = s.list(lambda s: step(s, everything, everything), 0, 3)
    shape = s.choice([[1, 1], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [1, 1, 1, 1], [2, 1, 1]])
    # Some objects belong to one thread, which may also read them; the others are used by all threads.
    owner = [s.below(len(shape)) if s.boolean() else None for _ in objects]
    programs = []
    for t, n in enumerate(shape):
        usable = [h for h in everything if owner[handles[h][0]] in (None, t)] or everything[:1]
        private = [h for h in usable if owner[handles[h][0]] == t]
        programs.append([step(s, usable, private) for _ in range(n)])
    case = {
        "family": family,
        "wc": s.below(2),
        "capacity": s.choice(CAPACITIES),
        "files": files,
        "toggle": s.one_in(4),
        "objects": objects,
        "new": new,
        "handles": handles,
        "before": before,
        "threads": programs,
    }
    # A thread without usable objects used the first one, which may be another thread's.
    users = {}
    for t, program in enumerate(programs):
        for h, _ in program:
            users.setdefault(handles[h][0], set()).add(t)
    for program in programs:
        for h, op in program:
            if len(users[handles[h][0]]) > 1 and op[0] not in ops.MUTATORS:
                op[:] = ["clear"]
    case["schedules"] = threads.schedules(s, len(shape), 12)
    return case


SCENARIOS = [Scenario("programs", run, generate, quick=20000, thorough=1000000, own_evals=True)]
