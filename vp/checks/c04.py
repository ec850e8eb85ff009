"""C04: writes through any handle never clobber changes made via other handles."""

from .. import gen, ops
from ..engine import Scenario, case_dir
from ..resources import threading_config

LEVEL = "exploration"
RULE = (
    "A case interleaves mutating steps over two or three objects bound to one resource and over retained child handles "
    "of each; nothing is read through the library in between (reads would refresh it), and the resource is compared "
    "with one shared plain structure after every step. Non-trivial: at least two objects changed the content, and "
    "an object changed it again after another one did."
)
ASSUMPTIONS = [
    "A retained child is used only while the position it came from holds a container of the same kind, was not "
    "reassigned or removed through the same object, and was not shifted within a list.",
]
BUDGET = {"quick": 75, "thorough": 600}


def generate(s, tier):
    case = gen.program(
        s, gen.ALL, [0, 1, 2], ops.DICT_MUTATORS, ops.LIST_MUTATORS, max_steps=12 if tier == "quick" else 30,
        min_steps=2, objects=(2, 2, 3), srcs=(0, 0, 1, 2, 3, 4), missing=False, init_depth=4,
    )
    case["warm"] = s.list(lambda s: [s.below(3), s.list(lambda s: s.below(4), 1, 3)], 0, 4)
    return case


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(case["cls"], d, case["cfg"], case["init"], case["n"], policy="shared")
        for actor, nav in case["warm"]:
            # Handles are obtained before anything is changed.
            w.grab([actor, 0, nav])
        writers = []
        handle_writes = 0
        for i, step in enumerate(case["steps"]):
            # Navigation reads through the library, so deep targets of stale objects
            # are reached only through the handles.
            if i % 2 == 0:
                step = [step[0], step[1], []] + list(step[3:])
            out = w.step(step, results=False)
            stats.count("op " + out.kind + "." + out.op[0])
            if out.mutated:
                writers.append(out.actor)
                handle_writes += bool(step[1] and w.handles)
            w.check_resource(f"after {out.op} at {out.path} through object {out.actor}")
        w.check_objects("at the end")
        stats.count("class " + case["cls"])
        stats.count("writes through handles", handle_writes)
        switches = sum(a != b for a, b in zip(writers, writers[1:]))
        return switches >= 2


SCENARIOS = [Scenario("programs", run, generate, quick=120000, thorough=3000000)]
