"""C01: every mutation is in the backend when the call returns."""

from .. import gen, ops
from ..engine import Scenario, case_dir
from ..resources import threading_config

LEVEL = "exploration"
RULE = (
    "A case is a class, a configuration, initial content and up to 14 mutating steps at any depth (through the root, "
    "fresh navigation or retained children); after each step the resource is read without the library and "
    "compared with built-in containers to which the same steps were applied. Non-trivial: at least two "
    "steps changed the content and at least one of them was issued through a nested child."
)
ASSUMPTIONS = [
    "A missing resource and a resource holding an empty container are the same logical content.",
    "MongoDB integers are limited to 64 bits (recorded as a known finding of C12).",
]
BUDGET = {"quick": 75, "thorough": 600}


def generate(s, tier):
    case = gen.program(
        s, gen.ALL, [0], ops.DICT_MUTATORS, ops.LIST_MUTATORS, max_steps=14 if tier == "quick" else 40,
    )
    case["grab"] = s.between(1, 4)
    case["observe"] = s.below(4)
    return case


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(case["cls"], d, case["cfg"], case["init"], case["n"], policy="identity")
        changed = nested = 0
        for i, step in enumerate(case["steps"]):
            if i % case["grab"] == 0:
                w.grab(step)
            out = w.step(step, results=False)
            stats.count("op " + out.kind + "." + out.op[0])
            if out.mutated:
                changed += 1
                nested += bool(out.path)
            w.check_resource(f"after {out.op[0]} at {out.path}")
            if case["observe"] and i % 4 == case["observe"]:
                w.check_objects()
        w.check_objects("at the end")
        stats.count("class " + case["cls"])
        return changed >= 2 and nested >= 1


SCENARIOS = [Scenario("programs", run, generate, quick=120000, thorough=3000000)]
