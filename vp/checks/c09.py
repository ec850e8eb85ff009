"""C09: concurrent writers are linearizable."""

from .. import boot, gen, ops, resources, sched, threads
from ..engine import Scenario, case_dir, fail
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case is a program of 2-3 threads with 1-2 mutating operations each, through up to two objects of one class on one "
    "file, objects opened for the operation, and children obtained in advance, together with schedules. Threads are real; they are "
    "exchanged at chosen lines of library code and at uses of its locks. An evaluation is one executed schedule. Its "
    "results and final content must be those of one of the serial orders, executed on built-in containers, or by the "
    "library itself where it depends on the order whether a child obtained in advance still belongs to the collection. "
    "Non-trivial: a thread was suspended in the middle of an operation, and the serial orders do not all agree or at least two operations changed the content."
)
ASSUMPTIONS = ["Threads are exchanged between lines of library code, not within a line."]
BUDGET = {"quick": 80, "thorough": 600}
TECHNIQUE = "generated multi-threaded programs under a deterministic scheduler against all serial orders"

CLASSES = ["JSONDict", "JSONList"] * 3 + list(boot.JSON_CLASSES)
setup = threads.setup


class Program:
    """Objects, handles and a function per operation."""

    def __init__(self, case, d):
        self.res = resources.make(case["cls"], d, {"wc": case["wc"]}, "f")
        if case["init"] is not None:
            self.res.write(case["init"])
        threads.prepare(self.res.cls, case["toggle"])
        self.objs = [self.res.open() for _ in range(case["objects"])]
        self.handles = [None if o == threads.NEW else threads.follow(self.objs[o], path) for o, path in case["handles"]]
        self.threads = case["threads"]
        self.results = [[None] * len(t) for t in self.threads]

    def do(self, t, i):
        h, op = self.threads[t][i]
        self.results[t][i] = threads.attempt(lambda: ops.perform(self.target(h), ops.clone_args(op), True))

    def target(self, h):
        return self.res.open() if self.handles[h] is None else self.handles[h]

    def outcome(self):
        results = threads.outcomes(self.threads, self.results)
        final = self.res.content()
        for o in self.objs:
            if not same(o(), final):
                fail(f"an object shows {show(o())} at the end, but the file holds {show(final)}")
        return [results, final]


def serial(case):
    """Outcomes of all serial orders."""
    result = {}
    orders = list(threads.merges([len(t) for t in case["threads"]]))
    if not any(op[0] == "popitem" for t in case["threads"] for _, op in t):
        for order in orders:
            out = on_builtins(case, order)
            if out is None:
                break
            result.setdefault(threads.canon(out), order)
        else:
            return result
        result = {}
    # With handles of containers that may be replaced: what they do then is up to the library.
    for order in orders:
        with case_dir() as d:
            p = Program(case, d)
            at = [0] * len(case["threads"])
            for t in order:
                p.do(t, at[t])
                at[t] += 1
            result.setdefault(threads.canon(p.outcome()), order)
    return result


def on_builtins(case, order):
    """The outcome for built-in containers; None if a handle loses its container."""
    root = clone(case["init"])
    if root is None:
        root = [] if case["cls"].endswith("List") else {}
    handles = [threads.follow(root, path) for _, path in case["handles"]]
    at = [0] * len(case["threads"])
    results = [[None] * len(t) for t in case["threads"]]
    for t in order:
        h, op = case["threads"][t][at[t]]
        results[t][at[t]] = threads.attempt(lambda: ops.perform(handles[h], ops.clone_args(op), False))
        at[t] += 1
        for (_, path), m in zip(case["handles"], handles):
            try:
                if threads.follow(root, path) is not m:
                    return None
            except (KeyError, IndexError, TypeError):
                return None
    return [threads.outcomes(case["threads"], results), root]


def execute(case, first, switches):
    with case_dir() as d:
        p = Program(case, d)

        def body(t):
            return lambda: [p.do(t, i) for i in range(len(case["threads"][t]))]

        s = sched.Scheduler([body(t) for t in range(len(case["threads"]))], [first], switches)
        s.run()
        if s.overrun:
            return s, None
        if s.deadlock:
            fail(f"deadlock: {s.deadlock}")
        return s, p.outcome()


def run(case, stats):
    allowed = serial(case)
    base = {}
    nontrivial = False
    for first, switches in case["schedules"]:
        if first not in base:
            s, out = execute(case, first, [])
            base[first] = threads.Base(s)
            check(case, allowed, out, first, [])
            stats.evals()
        resolved = base[first].resolve(switches)
        s, out = execute(case, first, resolved)
        stats.evals()
        if out is None:
            stats.count("inconclusive")
            continue
        check(case, allowed, out, first, resolved)
        nontrivial |= s.exchanged > 1
        stats.count(f"exchanges {min(s.exchanged, 6)}")
    stats.count(f"serial outcomes {min(len(allowed), 6)}")
    for t in case["threads"]:
        for h, op in t:
            stats.count(("new " if case["handles"][h][0] == threads.NEW else "child " if case["handles"][h][1] else "root ") + op[0])
    return nontrivial


def check(case, allowed, out, first, switches):
    if threads.canon(out) not in allowed:
        fail(
            f"{case['cls']} {case['threads']} on {case['init']} starting with thread {first}, switches {switches}: "
            f"outcome {show(out, 500)} is not that of any serial order, e.g. {show(sorted(allowed)[:3], 900)}"
        )


def generate(s, tier):
    cls_name = s.choice(CLASSES)
    init = s.choice(threads.LIST_INIT if cls_name.endswith("List") else threads.DICT_INIT)
    objects = s.between(1, 2)
    hs = threads.handles(s, init, objects)
    if hs == [[threads.NEW, []]]:
        objects = s.below(2)
    content = init if init is not None else ([] if cls_name.endswith("List") else {})
    dict_ops = gen.swarm(s, ops.DICT_MUTATORS)
    list_ops = gen.swarm(s, ops.LIST_MUTATORS)
    shape = s.choice([[1, 1], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1]])
    case = {
        "cls": cls_name,
        "wc": s.below(2),
        "toggle": s.one_in(4),
        "init": init,
        "objects": objects,
        "handles": hs,
        "threads": [[threads.step(s, hs, content, dict_ops, list_ops) for _ in range(n)] for n in shape],
    }
    case["schedules"] = threads.schedules(s, len(shape), 16)
    return case


SCENARIOS = [Scenario("programs", run, generate, quick=20000, thorough=1000000, own_evals=True)]
