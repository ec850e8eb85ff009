"""C17: reading never writes."""

import os

from .. import boot, buffers, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import MISSING, make, threading_config

LEVEL = "exploration"
RULE = (
    "A case is a sequence of reads (all of them, at any depth, also failing ones), through one or two objects, with "
    "entries and exits of buffered contexts and forced flushes, on an existing, missing or meanwhile removed resource; "
    "another file may be written in between through the same backend. After every step the bytes, inode, "
    "modification time and directory of the resource (or the number of writes to the fake store) must be unchanged. "
    "Non-trivial: at least three reads."
)
ASSUMPTIONS = ["The fake Redis, MongoDB and Zarr stores count every write."]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "property-based testing of read-only programs with fingerprints of the resource"


GONE = ["call", "len", "iter", "repr", "eq", "lt", "contains", "get", "values", "enter", "backend", "exit", "fresh"]


def generate(s, tier):
    buffered = s.boolean()
    cls_name = s.choice(list(boot.BUFFERED_CLASSES) if buffered else gen.ALL)
    buffered |= cls_name in boot.BUFFERED_CLASSES
    pool = None if s.boolean() else values.SIMPLE_KEYS[:3]
    big = gen.big_ok(cls_name)
    value = gen._memo(values.values, 2, 2, pool, big=big)
    step = ops.steps([0, 1], gen.swarm(s, ops.DICT_READS), gen.swarm(s, ops.LIST_READS), value, pool)

    def action(s):
        k = s.below(12)
        if not buffered or k < 7:
            return ["read", step(s), s.one_in(3)]
        if k == 7:
            return ["enter", "object", s.below(2), None]
        if k == 8:
            return ["enter", "backend", 0, s.choice([None, None, 0, 1, 40])]
        if k == 9:
            return ["exit", s.boolean()]
        if k == 10:
            return ["flush", s.choice([0, 1, 50])]
        return ["other", s.choice(buffers.CHANGES), s.below(20)]

    return {
        "cls": cls_name,
        "cfg": gen.config(s, cls_name),
        "init": None if s.one_in(4) else gen._memo(values.containers, 3, 3, pool, kind=gen.kind_of(cls_name), big=big)(s),
        "odd": s.below(3),
        "n": s.choice([1, 2]),
        "start": buffered and s.choice([None, "object", "backend"]),
        "actions": s.list(action, 1, 20 if tier == "quick" else 40),
        # Reads of objects that hold data while their resource is gone.
        "gone": s.list(lambda s: [s.choice(GONE), s.below(2), s.below(8), s.boolean()], 1, 6) if s.one_in(3) else [],
    }


def nested(o, model):
    """A few containers of an object."""
    result = [o]
    for k in ops.children(model)[:2]:
        if type(model[k]) in (dict, list):
            result.append(o[k])
            for j in ops.children(model[k])[:1]:
                if type(model[k][j]) in (dict, list):
                    result.append(o[k][j])
    return result


def gone(actions, w, nodes, ctx, check):
    """Reads after the resource was removed; what they return depends on what the objects hold."""
    for kind, i, j, nested in actions:
        c = nodes[j % len(nodes)] if nested else w.objs[i % len(w.objs)]
        if kind == "call":
            c()
        elif kind == "len":
            len(c)
        elif kind == "iter":
            list(c)
        elif kind == "repr":
            repr(c), str(c)
        elif kind == "eq":
            c == w.objs[0], c == {}, c != []
        elif kind == "lt":
            if not hasattr(c, "keys"):
                c < [], c >= []
        elif kind == "contains":
            "a" in c
        elif kind == "get":
            for k in list(c) if hasattr(c, "keys") else range(len(c)):
                c[k]
        elif kind == "values":
            if hasattr(c, "keys"):
                c.values(), c.items(), c.keys(), c.get("a")
        elif kind == "fresh":
            w.res.open()()
        elif w.cls_name not in boot.BUFFERED_CLASSES:
            continue
        elif kind == "enter":
            ctx.enter_object(w.objs[i % len(w.objs)])
        elif kind == "backend":
            ctx.enter_backend(w.res.cls, [None, 0, 40][j % 3])
        elif ctx.stack:
            ctx.exit()
        check(f"by {kind} after it was removed")
    while ctx.stack:
        ctx.exit()
        check("when leaving a context after it was removed")


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        home = os.path.join(d, "home")
        away = os.path.join(d, "away")
        os.mkdir(home)
        os.mkdir(away)
        w = ops.World(case["cls"], home, case["cfg"], case["init"], case["n"], "identity")
        w.exact_order = False
        # Operands of comparisons live elsewhere.
        w.dir = away
        is_file = hasattr(w.res, "path")
        if is_file and case["init"] is not None and case["odd"]:
            # Not the way the library writes it.
            w.res.write(w.model, how=2)
        other = None
        if is_file:
            other = make(case["cls"], away, case["cfg"], "other")
            other_model = buffers.initial(other.kind, 1)
            other.write(other_model)
            other_obj = other.open()
        w.res.backdate()
        if is_file:
            home = os.path.dirname(w.res.path)
            os.utime(home, ns=(10**18, 10**18))

        def state():
            if is_file:
                return w.res.fingerprint(), sorted(os.listdir(home)), os.stat(home).st_mtime_ns
            return w.res.fingerprint()

        before = [state()]
        ctx = buffers.Contexts()
        cls = w.res.cls
        capacity = cls.get_buffer_capacity() if hasattr(cls, "get_buffer_capacity") else None
        u = 100
        reads = 0

        def check(what):
            if state() != before[0]:
                fail(f"{case['cls']}: the resource was written {what} ({before[0]!r:.300} became {state()!r:.300})")

        if case["start"] == "object":
            ctx.enter_object(w.objs[0])
        elif case["start"] == "backend":
            ctx.enter_backend(cls)
        for a in case["actions"]:
            if a[0] == "read":
                if a[2]:
                    w.grab(a[1])
                if not is_file and ("synced" in a[1][3] or "synced" in a[1][4]):
                    continue
                out = w.step(a[1])
                reads += 1
                stats.count("op " + out.kind + "." + out.op[0])
                check(f"by {out.op[0]} at {out.path}")
            elif a[0] == "enter":
                if len(ctx.stack) < 5:
                    if a[1] == "object":
                        ctx.enter_object(w.objs[a[2] % len(w.objs)])
                    else:
                        ctx.enter_backend(cls, a[3])
                    check("when entering a context")
            elif a[0] == "exit":
                if ctx.stack:
                    ctx.exit(interrupted=a[1])
                    check("when leaving a context")
            elif a[0] == "flush":
                cap = cls.get_buffer_capacity()
                cls.set_buffer_capacity(a[1])
                cls.set_buffer_capacity(cap)
                check("by a change of the capacity")
            else:
                u += 1
                buffers.change(other_model, other_obj, a[1], u, a[2])
                check("by a change of another file")
        while ctx.stack:
            ctx.exit()
            check("when leaving a context")
        if capacity is not None:
            cls.set_buffer_capacity(capacity)
        for o in w.objs:
            o()
        check("by the last read")
        if case["gone"] and w.res.read() is not MISSING:
            nodes = [n for o in w.objs for n in nested(o, w.model)]
            w.res.delete()
            before[0] = state()
            gone(case["gone"], w, nodes, ctx, check)
            stats.count("removed while in use")
        stats.count("class " + case["cls"])
        stats.count("missing" if case["init"] is None else "existing")
        return reads >= 3


SCENARIOS = [Scenario("programs", run, generate, quick=100000, thorough=3000000)]
