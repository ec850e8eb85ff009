"""C02: every read reflects the backend's current content."""

from .. import gen, ops
from ..engine import Scenario, case_dir, fail
from ..resources import threading_config
from ..values import same, show

LEVEL = "exploration"
RULE = (
    "A case interleaves reads and writes through up to three objects, retained child handles and an outside "
    "writer (any mutation of the content, including kind changes at any position). Every read is compared with "
    "the same read of a plain model. Non-trivial: at least one change was made behind the back of an object "
    "that read a changed position afterwards."
)
ASSUMPTIONS = [
    "A resource whose content is null at the top level, and a deleted resource, are outside the domain (documented "
    "as 'no modification').",
]
BUDGET = {"quick": 75, "thorough": 600}


def generate(s, tier):
    case = gen.program(
        s, gen.ALL, [0, 0, 1, 2, -1, -1], ops.DICT_READS + ops.DICT_MUTATORS, ops.LIST_READS + ops.LIST_MUTATORS,
        max_steps=14 if tier == "quick" else 40, objects=(1, 2, 2, 3), srcs=(0, 0, 1, 2, 3), missing=False,
    )
    case["grab"] = s.between(1, 4)
    case["stamp"] = s.boolean()
    return case


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(case["cls"], d, case["cfg"], case["init"], case["n"], policy="position")
        w.exact_order = False
        outside = False
        observed = False
        if case["stamp"]:
            w.res.backdate()
        for i, step in enumerate(case["steps"]):
            if i % case["grab"] == 0:
                w.grab(step)
            out = w.step(step)
            if case["stamp"]:
                # Content can change without any change of the modification time.
                w.res.backdate()
            stats.count("op " + ("outside " if out.actor < 0 else "") + out.kind + "." + out.op[0])
            if out.mutated:
                outside = True
            elif outside and out.op[0] in ops.READS and out.actor >= 0:
                observed = True
            if out.mutated and out.actor >= 0:
                w.check_resource(f"after {out.op[0]} at {out.path} through object {out.actor}")
        for h in w.handles:
            data = h.synced()
            if not same(data, h.chain[-1]):
                fail(f"{case['cls']}: retained child of {h.path} shows {show(data)}, expected {show(h.chain[-1])}")
            stats.count("handles alive at the end")
        w.check_objects("at the end")
        stats.count("class " + case["cls"])
        return outside and observed


# -- every old value against every new value at one position ---------------------------

POSITIONS = [None, 0, 1, True, False, 1.0, 0.0, "", "a", [], [0], [1, 2], [[]], [{}], {}, {"a": 0}, {"a": 1},
             {"a": None}, {"b": [1]}, {"a": {"b": 1}}, [None], [{"a": 1}], {"a": []}, {"a": [], "b": {}}]


def transition_cases(tier):
    for cls_name in gen.ALL:
        for a in range(len(POSITIONS)):
            for b in range(len(POSITIONS)):
                if tier == "quick" and (a * 31 + b * 7) % 3 != gen.ALL.index(cls_name) % 3:
                    continue
                for depth in (0, 1):
                    yield {"cls": cls_name, "old": a, "new": b, "depth": depth}


def run_transition(case, stats):
    import json

    old, new = json.loads(json.dumps([POSITIONS[case["old"]], POSITIONS[case["new"]]]))
    lst = case["cls"].endswith("List")

    def wrap(x):
        for _ in range(case["depth"]):
            x = {"p": x, "q": 1}
        return [7, x, 8] if lst else {"k": x, "z": 1}

    key = 1 if lst else "k"
    with case_dir() as d:
        w = ops.World(case["cls"], d, {}, wrap(old))
        o = w.objs[0]

        def child():
            c = o[key]
            for _ in range(case["depth"]):
                c = c["p"]
            return c

        handle = child()
        w.model = wrap(new)
        w.res.write(w.model)
        kept = type(old) is type(new) and type(new) in (dict, list)
        if kept and not same(handle(), new):
            fail(f"{case['cls']}: child changed from {old!r} to {new!r} in the backend shows {handle()!r}")
        got = ops.plain(child())
        if not same(got, new):
            fail(f"{case['cls']}: value changed from {old!r} to {new!r} in the backend reads as {got!r}")
        w.check_objects()
        # Reading must not have disturbed anything either.
        if lst:
            o.append("new")
            w.model.append("new")
        else:
            o["new"] = 1
            w.model["new"] = 1
        w.check_resource("after a write following the change")
        if kept:
            m = w.model[key]
            for _ in range(case["depth"]):
                m = m["p"]
            if type(new) is list:
                handle.append(5)
                m.append(5)
            else:
                handle["h"] = 5
                m["h"] = 5
            w.check_resource("after a write through the retained child")
    return not same(old, new)


SCENARIOS = [
    Scenario("transitions", run_transition, cases=transition_cases),
    Scenario("programs", run, generate, quick=120000, thorough=3000000),
]
