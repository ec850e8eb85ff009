"""C06: objects on one file share one buffered state; the flush keeps all their writes."""

from .. import buffers, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import threading_config

LEVEL = "exploration"
RULE = (
    "A case lets two or three objects on one file enter a common buffered state (one backend-wide context, per-object "
    "contexts, or both), interleaves reads, writes and capacity-forced flushes over them, leaves the contexts in a "
    "generated order, and continues unbuffered; this is repeated up to three times. Every result is compared with "
    "one shared plain structure, and so is the file after the exit. Non-trivial: at least two objects were "
    "used within one buffered state and at least one of them changed the content."
)
ASSUMPTIONS = [
    "With the shared-memory strategy, children obtained before the common buffered state was entered are not used in "
    "it (a known finding when another object touches the buffer first).",
    "All objects enter and leave the buffered state together: there is no operation in between.",
]
BUDGET = {"quick": 80, "thorough": 600}
TECHNIQUE = "stateful property-based testing of several buffered objects against one shared model"


def generate(s, tier):
    family = s.choice(buffers.FAMILIES)
    kind = s.choice(["Dict", "List"])
    k = s.choice([2, 2, 3])
    dict_ops = gen.swarm(s, ops.DICT_MUTATORS + ops.DICT_READS)
    list_ops = gen.swarm(s, ops.LIST_MUTATORS + ops.LIST_READS)
    pool = None if s.one_in(3) else values.SIMPLE_KEYS[:3]
    value = gen._memo(values.values, 2, 2, pool, big=True)
    step = ops.steps(list(range(k)), dict_ops, list_ops, value, pool, srcs=(0, 0, 1, 2, 3))
    writes = ops.steps(list(range(k)), ops.DICT_MUTATORS, ops.LIST_MUTATORS, value, pool, srcs=(0, 0, 1, 2, 3))

    def inner(s):
        if s.one_in(10):
            return ["flush"]
        return ["op", step(s), s.one_in(3)]

    def round_(s):
        return {
            "mode": s.choice(["backend", "objects", "both", "both2"]),
            "inner": s.list(inner, 1, 9),
            "order": [s.below(k - i) for i in range(k)],
            "after": s.list(lambda s: [writes(s), s.one_in(3)], 0, 4),
        }

    return {
        "family": family,
        "kind": kind,
        "k": k,
        "cfg": gen.config(s, "JSON"),
        "init": None if s.one_in(5) else gen._memo(values.containers, 3, 3, pool, kind=kind.lower(), big=True)(s),
        "before": s.list(lambda s: [step(s), s.one_in(3)], 0, 3),
        "rounds": s.list(round_, 1, 3),
    }


def run(case, stats):
    memory = case["family"].startswith("Memory")
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(
            case["family"] + case["kind"], d, case["cfg"], case["init"], case["k"], "identity" if memory else "shared"
        )
        cls = w.res.cls
        nontrivial = False
        for step, grab in case["before"]:
            if grab:
                w.grab(step)
            w.step(step)
            w.check_resource("before buffering")
        for r in case["rounds"]:
            if memory:
                w.handles = []
            ctx = buffers.Contexts()
            if r["mode"] in ("backend", "both"):
                ctx.enter_backend(cls)
            if r["mode"] != "backend":
                for o in w.objs:
                    ctx.enter_object(o)
            if r["mode"] == "both2":
                ctx.enter_backend(cls)
            used = set()
            changed = False
            for action in r["inner"]:
                if action[0] == "flush":
                    capacity = cls.get_buffer_capacity()
                    cls.set_buffer_capacity(0)
                    cls.set_buffer_capacity(capacity)
                    stats.count("forced flushes")
                    continue
                if action[2]:
                    w.grab(action[1])
                out = w.step(action[1])
                used.add(out.actor)
                changed |= out.mutated
                stats.count("buffered op " + out.op[0])
            nontrivial |= len(used) > 1 and changed
            if r["mode"] == "both2":
                ctx.exit()
            if r["mode"] != "backend":
                # The contexts of the objects are left in any order.
                base = 1 if r["mode"] == "both" else 0
                for i in r["order"]:
                    ctx.exit(base + i)
            ctx.exit_all()
            w.check_resource("after the buffered state was left")
            if cls.get_current_buffer_size():
                fail(f"{w.cls_name}: buffer size is {cls.get_current_buffer_size()} after the buffered state was left")
            for step, grab in r["after"]:
                if grab:
                    w.grab(step)
                out = w.step(step)
                w.check_resource(f"after {out.op[0]} at {out.path} through object {out.actor}, unbuffered")
        w.check_objects("at the end")
        w.check_resource("at the end")
        stats.count("family " + case["family"])
        return nontrivial


def early_child():
    """A child obtained before its object's first buffered access, while another object touches the buffer first."""
    with case_dir() as d:
        w = ops.World("MemoryBufferedJSONDict", d, {}, {"a": {}}, 2)
        child = w.objs[1]["a"]
        with w.res.cls.buffer_backend():
            w.objs[0]["b"] = 1
            child["x"] = 1
            if w.objs[0]() != {"a": {"x": 1}, "b": 1}:
                fail("write through a child obtained before the buffered context is lost")
        if w.res.content() != {"a": {"x": 1}, "b": 1}:
            fail("write through a child obtained before the buffered context is lost")


PROBES = {"early-child": early_child}

SCENARIOS = [Scenario("programs", run, generate, quick=120000, thorough=3000000)]
