"""C05: buffered mode is transparent and defers all writes to the outermost exit."""

from .. import buffers, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import threading_config
from ..values import same, show

LEVEL = "exploration"
RULE = (
    "A case is a program over one or two collections on distinct files that mixes all operations with well-nested "
    "entries and exits of per-object and backend-wide buffered contexts (also left through an exception), at times "
    "going on with another object of the same file. Results are "
    "compared with built-in containers; files must stay untouched while buffered and hold the model's content after "
    "the outermost exit. Non-trivial: the content was changed while buffered and at least one more operation "
    "followed before the exit."
)
ASSUMPTIONS = [
    "At the outermost exit a missing file and a file holding an empty container are the same content.",
    "Deferral is not asserted inside contexts whose capacity is small enough to force flushes.",
]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "stateful property-based testing of buffered programs against built-in containers"


def generate(s, tier):
    family = s.choice(buffers.FAMILIES)
    kinds = [s.choice(["Dict", "List"]) for _ in range(s.between(1, 2))]
    dict_ops = gen.swarm(s, ops.DICT_MUTATORS + ops.DICT_READS)
    list_ops = gen.swarm(s, ops.LIST_MUTATORS + ops.LIST_READS)
    pool = None if s.boolean() else values.SIMPLE_KEYS[:3]
    value = gen._memo(values.values, 2, 2, pool, big=True)
    step = ops.steps([0], dict_ops, list_ops, value, pool)
    switches = s.one_in(3)

    def action(s):
        k = s.below(10)
        if k < 6:
            if switches and s.one_in(8):
                return ["switch", s.below(2), s.below(3)]
            return ["op", s.below(2), step(s)]
        if k < 8:
            cap = None
            kind = s.choice(["object", "backend"])
            if kind == "object" and s.one_in(4):
                return ["enter", s.below(2), "child", s.list(lambda s: s.below(4), 1, 3)]
            if kind == "backend" and s.one_in(5):
                cap = s.choice([10**6, 0, 1, 20, 60])
            return ["enter", s.below(2), kind, cap]
        return ["exit", s.boolean()]

    return {
        "family": family,
        "kinds": kinds,
        "cfg": gen.config(s, "JSON"),
        "init": [
            None if s.one_in(5) else gen._memo(values.containers, 3, 3, pool, kind=k.lower(), big=True)(s) for k in kinds
        ],
        "actions": s.list(action, 3, 24 if tier == "quick" else 50),
        "grab": s.between(1, 4),
        "start": s.choice([None, "object", "backend"]),
    }


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        worlds = [
            ops.World(case["family"] + k, d, case["cfg"], init, 1, "identity", f"f{i}")
            for i, (k, init) in enumerate(zip(case["kinds"], case["init"]))
        ]
        ctx = buffers.Contexts()
        marks = [None] * len(worlds)  # fingerprint while buffered
        forced = [False]
        changed = [False] * len(worlds)
        followed = False
        spares = [[None, None] for _ in worlds]  # other objects of the same files, opened when needed

        def switch(i, k):
            """Go on with another object of the file, unless its use were to overlap with buffering of this one."""
            w = worlds[i]
            if ctx.buffered(w.objs[0]) and not ctx.backend(w.res.cls):
                return
            if any(t is w.objs[0] for _, t, _ in ctx.stack):
                return
            w.exact_order = False
            w.handles = []
            k %= 2
            new = w.res.open() if spares[i][k] is None else spares[i][k]
            w.objs[0], spares[i][k] = new, w.objs[0]
            stats.count("objects switched")

        def mark(i):
            w = worlds[i]
            if ctx.buffered(w.objs[0]):
                if marks[i] is None:
                    w.res.backdate()
                    marks[i] = (w.res.fingerprint(),)
            else:
                marks[i] = None

        def check(i, what):
            w = worlds[i]
            if marks[i] is not None:
                if not forced[0] and w.res.fingerprint() != marks[i][0]:
                    fail(f"{w.cls_name}: file {i} was written {what}, before its outermost buffered context exited")
            else:
                w.check_resource(what)

        def enter(i, kind, cap=None):
            w = worlds[i]
            for j in range(len(worlds)):
                if marks[j] is None:
                    worlds[j].res.backdate()
            if kind == "object":
                ctx.enter_object(w.objs[0])
            elif kind == "child":
                # The context of a nested collection buffers the whole collection.
                path, _ = ops.descend(w.model, cap)
                ctx.enter_object(w.objs[0], w.walk((w.objs[0], path)))
                stats.count("contexts of children")
            else:
                ctx.enter_backend(w.res.cls, cap)
                if cap is not None and cap < 1000:
                    forced[0] = True
            for j in range(len(worlds)):
                mark(j)
                check(j, "when entering a context")

        def leave(interrupted=False):
            before = [ctx.buffered(w.objs[0]) for w in worlds]
            ctx.exit(interrupted=interrupted)
            for j, w in enumerate(worlds):
                mark(j)
                check(j, "when leaving a context")
                if before[j] and marks[j] is None:
                    changed[j] = False
                    if any(o is not None for o in spares[j]):
                        # While the data was shared, children could belong to either object.
                        w.handles = []
            if not ctx.stack:
                forced[0] = False
            stats.count("exits")

        if case["start"]:
            enter(0, case["start"])
        for n, action in enumerate(case["actions"]):
            if action[0] == "enter":
                if len(ctx.stack) < 5:
                    enter(action[1] % len(worlds), action[2], action[3])
                continue
            if action[0] == "exit":
                if ctx.stack:
                    leave(action[1])
                continue
            i = action[1] % len(worlds)
            if action[0] == "switch":
                switch(i, action[2])
                continue
            w = worlds[i]
            step = action[2]
            if n % case["grab"] == 0:
                w.grab(step)
            out = w.step(step)
            if changed[i]:
                followed = True
            if out.mutated and marks[i] is not None:
                changed[i] = True
                stats.count("buffered change " + out.op[0])
            for j in range(len(worlds)):
                check(j, f"after {out.op[0]} at {out.path} of file {i}")
        while ctx.stack:
            leave()
        for i, w in enumerate(worlds):
            w.check_resource("at the end")
            w.check_objects("at the end")
            for h in w.handles:
                if not same(h.synced(), h.chain[-1]):
                    fail(f"{w.cls_name}: retained child {h.path} shows {show(h.synced())}, expected {show(h.chain[-1])}")
            for k in (0, 1):
                if spares[i][k] is not None:
                    switch(i, k)
                    w.check_objects("at the end, through another object")
            if w.res.cls.get_current_buffer_size() != 0:
                fail(f"{w.cls_name}: buffer size {w.res.cls.get_current_buffer_size()} without any buffered context")
        stats.count("family " + case["family"])
        return followed


SCENARIOS = [Scenario("programs", run, generate, quick=120000, thorough=3000000)]

