"""C03: operations refine those of the built-in dict and list."""

from .. import gen, ops
from ..engine import Scenario, case_dir
from ..resources import threading_config

LEVEL = "exploration"
RULE = (
    "A case is a class, initial content and up to 14 steps over all public mutators and reads at any depth. The result, "
    "the class of an exception and the content (through the object and in the resource) are compared with built-in "
    "containers after every step. Non-trivial: at least four steps, at least one of which changed the content and "
    "at least one of which raised or read."
)
ASSUMPTIONS = [
    "Key order is compared until the first bulk update or outside write; popitem() may then remove any item.",
    "Slices are assigned lists of the right length for extended slices (one step in ten has a wrong length).",
]
BUDGET = {"quick": 75, "thorough": 600}


def generate(s, tier):
    case = gen.program(
        s, gen.ALL, [0], ops.DICT_MUTATORS + ops.DICT_READS, ops.LIST_MUTATORS + ops.LIST_READS,
        max_steps=14 if tier == "quick" else 40, min_steps=2,
    )
    case["grab"] = s.between(1, 5)
    case["observe"] = s.boolean()
    return case


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(case["cls"], d, case["cfg"], case["init"], case["n"], policy="identity")
        changed = raised = read = 0
        for i, step in enumerate(case["steps"]):
            if i % case["grab"] == 0:
                w.grab(step)
            before = w.res.fingerprint() if i % 3 == 0 else None
            out = w.step(step)
            stats.count("op " + out.kind + "." + out.op[0] + (" raised" if out.model[0] == "exc" else ""))
            changed += out.mutated
            read += out.op[0] in ops.READS
            if out.model[0] == "exc":
                raised += 1
                if before is not None and w.res.fingerprint() != before:
                    w.check_resource()
            w.check_resource(f"after {out.op[0]} at {out.path}")
            if case["observe"]:
                w.check_objects()
        w.check_objects("at the end")
        stats.count("class " + case["cls"])
        return len(case["steps"]) >= 4 and changed and (raised or read)


SCENARIOS = [Scenario("programs", run, generate, quick=120000, thorough=3000000)]
