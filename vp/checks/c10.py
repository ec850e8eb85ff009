"""C10: no operation leaks a lock; no interleaving deadlocks."""

import collections
import os
import random
import types

from .. import boot, buffers, faults, gen, ops, resources, sched, threads, values
from ..engine import Scenario, case_dir, fail
from ..values import clone, same, show

LEVEL = "fault_enumeration"
RULE = (
    "faults: an operation (all mutators and reads, constructors, entering and leaving buffered contexts, capacity "
    "changes, filename changes) runs in one thread and an error is raised at its k-th call of a file or JSON function, for "
    "every k; or the file is unparsable, of the wrong kind or a directory; or the operation is given values that are refused "
    "or raise themselves. Then other threads use the same object, another object on the same file, another "
    "file and a new object. An evaluation is one injected fault followed by that. filenames: programs that point objects to other files, each "
    "step in a thread of its own, against a model of the files. schedules: generated "
    "multi-threaded programs with synced arguments, contexts, capacity and filename changes under the deterministic "
    "scheduler; an evaluation is one schedule. Deadlocks are found by the scheduler, not by timeouts. Non-trivial: "
    "the operation raised; an object was re-pointed and used; threads were exchanged within operations."
)
ASSUMPTIONS = [
    "Errors are raised by calls of files and JSON functions, not asynchronously between lines.",
    "Locks of the library are those made by the threading module.",
]
BUDGET = {"quick": 90, "thorough": 600}
TECHNIQUE = "fault enumeration and generated multi-threaded programs under a deterministic scheduler with deadlock detection"

FAMILIES = ["JSON", "JSONAttr"] + buffers.FAMILIES
setup = threads.setup


def lock_error(e):
    """A lock was released by a thread that does not hold it."""
    return type(e) is RuntimeError and "lock" in str(e)


def in_thread(fn, what):
    """Run fn in a new thread; fails if it would wait for ever."""
    s = sched.Scheduler([fn])
    (result,) = s.run()
    if s.deadlock:
        boot.reload()
        sched.watch_lines()
        fail(f"{what}: {s.deadlock}")
    return result


def about(e):
    """Describe an exception; some contain collections, whose representation loads them."""
    if type(e).__module__.startswith(boot.PKG):
        return type(e).__name__
    return repr(e)


class RaisingMapping(dict):
    def items(self):
        raise OSError("raised by the value")

    def __getitem__(self, k):
        raise OSError("raised by the value")

    def __iter__(self):
        raise OSError("raised by the value")


class RaisingEq(int):
    def __eq__(self, other):
        raise OSError("raised by the value")

    __hash__ = int.__hash__


class RaisingClass:
    @property
    def __class__(self):
        raise OSError("raised by the value")


def raising_generator():
    yield 1
    raise OSError("raised by the value")


BAD_VALUES = {
    "object": object,
    "set": lambda: {1},
    "nested object": lambda: [1, {"a": object()}],
    "int key": lambda: {1: 2},
    "dot key": lambda: {"a.b": 1},
    "bigint": lambda: 10**5000,
    "deep": lambda: nested(1200),
    "raising mapping": lambda: RaisingMapping(a=1),
    "raising eq": lambda: RaisingEq(3),
    "raising class": RaisingClass,
    "generator": raising_generator,
    "complex": lambda: 1j,
    "str": lambda: "text",
    "none": lambda: None,
}
BAD_KEYS = [1, None, "a.b", [], "_data"]
CORRUPT = [b"", b"{", b"[1, ", b"\xff\xfe\x00", b"[1]", b'{"a": 1}', b"3", b"null", b'"x"', b'{"a": NaN}', "directory"]


def nested(n):
    x = []
    for _ in range(n):
        x = [x]
    return x


class Program:
    def __init__(self, case, d):
        self.case = case
        self.dir = d
        cfg = {"wc": case.get("wc", 0)}
        self.resources = [resources.make(case["cls"], d, cfg, f"f{i}") for i in range(2)]
        self.res = self.resources[0]
        if case["init"] is not None:
            for r in self.resources:
                r.write(case["init"])
        self.cls = self.res.cls
        self.a = self.res.open()
        self.same_file = self.res.open()
        self.other_file = self.resources[1].open()
        self.is_dict = self.res.kind == "dict"
        self.ctx = buffers.Contexts()
        self.target = threads.follow(self.a, ops.descend(self.a(), case["nav"])[0]) if case.get("nav") else self.a

    def enter(self, context):
        if context == "object":
            self.ctx.enter_object(self.a)
            self.ctx.enter_object(self.same_file)
        elif context == "backend":
            self.ctx.enter_backend(self.cls)
        elif context == "tiny":
            self.ctx.enter_backend(self.cls, self.case["capacity"])

    def leave(self):
        while self.ctx.stack:
            try:
                self.ctx.exit()
            except self.tolerated():
                pass

    @staticmethod
    def tolerated():
        lib = boot.lib()
        return (lib.BufferedError, lib.MetadataError, OSError, ValueError, RecursionError, TypeError)

    def change(self, obj, n):
        if self.is_dict:
            obj[f"h{n}"] = n
        else:
            obj.append(f"h{n}")

    def expect(self, n):
        data = self.res.content()
        return f"h{n}" in data


def act(p, action):
    """Perform the action of a case."""
    kind = action[0]
    if kind == "op":
        m = clone(p.case["init"]) if p.case["init"] is not None else p.res.empty()
        m = threads.follow(m, ops.descend(m, p.case.get("nav") or [])[0])
        ops.perform(p.target, ops.resolve([0, 0, []] + action[1:], m), True, lambda k, data: data)
    elif kind == "bad":
        bad_op(p.target, action[1], BAD_VALUES[action[2]](), action[3])
    elif kind == "construct":
        p.res.cls(filename=p.res.path, data=[1, [2]] if not p.is_dict else {"n": [1]})
    elif kind == "construct bad":
        x = BAD_VALUES[action[1]]()
        p.res.cls(filename=p.res.path, data=[x] if not p.is_dict else {"n": x})
    elif kind == "filename":
        p.a.filename = p.resources[action[1]].path
    elif kind == "capacity":
        old = p.cls.get_buffer_capacity()
        try:
            p.cls.set_buffer_capacity(action[1])
        finally:
            p.cls.set_buffer_capacity(old)
    elif kind == "enter":
        with p.a.buffered:
            p.change(p.a, 1)
    elif kind == "enter backend":
        with p.cls.buffer_backend(action[1]):
            p.change(p.a, 1)
            p.change(p.other_file, 2)
    elif kind == "exit":
        if p.ctx.stack:
            p.ctx.exit()
    else:
        raise AssertionError(kind)


def bad_op(c, entry, x, key):
    is_dict = isinstance(c, boot.lib().SyncedDict)
    if is_dict:
        if entry == "set":
            c["a"] = x
        elif entry == "key":
            c[BAD_KEYS[key % len(BAD_KEYS)]] = 1
        elif entry == "update":
            c.update({"a": 1, "b": x})
        elif entry == "whole":
            c.update(x)
        elif entry == "reset":
            c.reset({"a": x})
        elif entry == "reset whole":
            c.reset(x)
        elif entry == "setdefault":
            c.setdefault("new", x)
        elif entry == "compare":
            c == {"a": x}
        elif entry == "missing":
            del c["missing"]
        elif entry == "attribute":
            c.foo = x
        else:
            c.popitem() if len(c) == 0 else c["missing"]
    else:
        if entry == "set":
            c[0] = x
        elif entry == "key":
            c[BAD_KEYS[key % len(BAD_KEYS)]] = 1
        elif entry == "update":
            c.extend([1, x])
        elif entry == "whole":
            c.extend(x)
        elif entry == "reset":
            c.reset([x])
        elif entry == "reset whole":
            c.reset(x)
        elif entry == "setdefault":
            c.insert(0, x)
        elif entry == "compare":
            c < [x]
        elif entry == "missing":
            c.remove(x)
        elif entry == "attribute":
            c += [x]
        else:
            c.append(x)


ENTRIES = ["set", "key", "update", "whole", "reset", "reset whole", "setdefault", "compare", "missing", "attribute", "append"]


def attempt_in_thread(p, action, what, fault=None):
    """Returns the exception raised by the action in its thread."""

    def body():
        try:
            if fault is None:
                act(p, action)
            else:
                with fault:
                    act(p, action)
        except sched.Abort:
            raise
        except BaseException as e:
            return e
        return None

    e = in_thread(body, what)
    if lock_error(e):
        fail(f"{what} raised {about(e)}")
    return e


def health(p, what, buffered):
    """Other threads must be able to use everything."""

    def use(label, fn):
        def body():
            try:
                fn()
            except sched.Abort:
                raise
            except Exception as e:
                return e
            return None

        e = in_thread(body, f"{what}, then {label} in another thread")
        if e is None:
            return
        if buffered and isinstance(e, p.tolerated()):
            return
        fail(f"{what}, then {label} in another thread raised {about(e)}")

    for label, obj in (("the same object", p.a), ("another object on the file", p.same_file),
                       ("an object on another file", p.other_file)):
        use(f"reading {label}", obj)
        use(f"changing {label}", lambda: p.change(obj, 7))
        use(f"changing {label} again", lambda: p.change(obj, 8))
    use("the child", lambda: p.target())
    use("a new object", lambda: p.change(p.res.open(), 9))
    if hasattr(p.cls, "buffer_backend"):
        use("a backend-wide context", lambda: backend_context(p))
        use("setting the capacity", lambda: p.cls.set_buffer_capacity(p.cls.get_buffer_capacity()))
        use("a context of the same object", lambda: object_context(p))
    if not buffered:
        for r in p.resources:
            r.content()


def backend_context(p):
    with p.cls.buffer_backend():
        p.change(p.same_file, 3)
        p.change(p.other_file, 3)


def object_context(p):
    with p.a.buffered:
        p.change(p.a, 4)


def repair(p):
    """Give all files a proper content."""
    for r in p.resources:
        if os.path.isdir(r.path):
            os.rmdir(r.path)
        r.write(r.empty())


def before_action(p, case):
    p.enter(case["context"])
    for n in range(case["prepare"]):
        p.change(p.a if n % 2 == 0 else p.other_file, n)


def run_faults(case, stats):
    raised_any = False
    k = 0
    while k < 60:
        k += 1
        with case_dir() as d:
            p = Program(case, d)
            before_action(p, case)
            fault = faults.Faults(k, case["kind"], k + case["repeat"])
            what = f"{case['cls']} {case['action']} in context {case['context']} with {case['kind']} at call {k}"
            e = attempt_in_thread(p, case["action"], what, fault)
            stats.evals()
            stats.count("fault at " + (fault.raised[0] if fault.raised else "none"))
            if e is not None:
                raised_any = True
            health(p, f"{what} ({fault.raised}) raised {about(e)}", True)
            p.leave()
            if not case["context"]:
                check_parsable(p, what)
            else:
                repair(p)
            health(p, f"{what}, after leaving all contexts", False)
            if not fault.raised:
                break
    return raised_any


def check_parsable(p, what):
    for r in p.resources:
        try:
            r.content()
        except ValueError:
            fail(f"{what} left an unparsable file")


def run_refused(case, stats):
    """Values that are refused, or unparsable files."""
    with case_dir() as d:
        p = Program(case, d)
        before_action(p, case)
        action = case["action"]
        what = f"{case['cls']} {action} in context {case['context']}"
        if case["corrupt"] is not None:
            what += f" with file {case['corrupt']!r}"
            blob = CORRUPT[case["corrupt"]]
            if os.path.exists(p.res.path):
                os.remove(p.res.path)
            if blob == "directory":
                os.mkdir(p.res.path)
            else:
                with open(p.res.path, "wb") as f:
                    f.write(blob)
        e = attempt_in_thread(p, action, what)
        stats.evals()
        stats.count(f"raised {type(e).__name__}" if e is not None else "nothing raised")
        if case["corrupt"] is not None and not case["context"]:
            # While the file cannot be read, operations raise, but they do not wait.
            for obj in (p.a, p.same_file):
                in_thread(lambda: threads.attempt(obj), what + ", reading it again in another thread")
            in_thread(lambda: p.change(p.other_file, 5), what + ", changing another file in another thread")
            repair(p)
        elif not os.path.exists(p.res.path):
            # As long as there is no file, objects keep the data that could not be written.
            p.res.write(p.res.empty())
        health(p, f"{what} raised {type(e).__name__}", bool(case["context"]))
        p.leave()
        if case["context"]:
            repair(p)
            health(p, f"{what} raised {type(e).__name__}, after leaving all contexts", False)
        return e is not None


# -- generation ---------------------------------------------------------------------------


def gen_class(s):
    return s.choice(FAMILIES) + s.choice(["Dict", "List"])


def gen_common(s):
    cls_name = gen_class(s)
    init = s.choice(threads.LIST_INIT if cls_name.endswith("List") else threads.DICT_INIT)
    buffered = cls_name in boot.BUFFERED_CLASSES
    return {
        "cls": cls_name,
        "wc": s.below(2),
        "init": init,
        "nav": s.list(lambda s: s.below(3), 0, 2) if init else [],
        "context": s.choice([None, "object", "backend", "tiny"]) if buffered else None,
        "capacity": s.choice([0, 1, 30, 60]),
        "prepare": s.below(4),
    }


def gen_op(s):
    return ["op", s.choice(ops.DICT_MUTATORS + ops.DICT_READS), s.choice(ops.LIST_MUTATORS + ops.LIST_READS), s.below(9),
            s.choice(ops.SIGNED), s.choice(values.SIMPLE_KEYS), threads.thread_value(s)]


def gen_faults(s, tier):
    case = gen_common(s)
    buffered = case["cls"] in boot.BUFFERED_CLASSES
    k = s.below(10)
    if k < 6 or not buffered and k < 8:
        case["action"] = gen_op(s)
    elif k == 6:
        case["action"] = ["construct"]
    elif k == 7:
        case["action"] = s.choice([["enter"], ["enter backend", None], ["enter backend", 0], ["enter backend", 1]])
    elif k == 8:
        case["action"] = ["capacity", 0] if buffered and s.boolean() else ["filename", s.below(2)]
    else:
        case["action"] = ["exit"]
    case["kind"] = s.choice(faults.KINDS)
    case["repeat"] = s.choice([0, 0, 0, 1, 3, 100])
    return case


def gen_refused(s, tier):
    case = gen_common(s)
    case["corrupt"] = s.below(len(CORRUPT)) if s.boolean() else None
    if s.boolean():
        case["action"] = ["bad", s.choice(ENTRIES), s.choice(list(BAD_VALUES)), s.below(5)]
    elif s.boolean():
        case["action"] = gen_op(s)
    else:
        case["action"] = s.choice([["construct"], ["construct bad", s.choice(list(BAD_VALUES))], ["filename", s.below(2)]])
    return case


# -- changing filenames --------------------------------------------------------------------


def gen_filenames(s, tier):
    cls_name = gen_class(s)

    def step(s):
        if s.one_in(3):
            return ["point", s.below(4), s.below(3)]
        return ["op", s.below(4), s.choice(["set", "set", "grow", "update", "clear", "reset", "remove", "look"]), s.below(20)]

    return {
        "cls": cls_name,
        "wc": s.below(2),
        "bound": s.list(lambda s: s.below(3), 2, 4),
        "steps": s.list(step, 2, 12),
        "same thread": s.one_in(4),
    }


def run_filenames(case, stats):
    with case_dir() as d:
        rs = [resources.make(case["cls"], d, {"wc": case["wc"]}, f"f{i}") for i in range(3)]
        models = []
        for i, r in enumerate(rs):
            # All files exist: an object pointed to a missing file keeps its data.
            models.append(buffers.initial(r.kind, i))
            r.write(models[-1])
        objs = [rs[b].open() for b in case["bound"]]
        bound = list(case["bound"])
        pointed = set()
        used = False

        def perform(fn, what):
            return fn() if case["same thread"] else in_thread(fn, what)

        for n, step in enumerate(case["steps"]):
            o = step[1] % len(objs)
            what = f"{case['cls']}, objects on files {bound}: {step}"
            if step[0] == "point":
                perform(lambda: setattr(objs[o], "filename", rs[step[2]].path), what)
                if objs[o].filename != rs[step[2]].path:
                    fail(f"{what}: filename is {objs[o].filename!r}")
                bound[o] = step[2]
                pointed.add(o)
            elif step[2] == "look":
                data = perform(lambda: objs[o](), what)
                if not same(data, models[bound[o]]):
                    fail(f"{what}: object shows {show(data)}, its file holds {show(models[bound[o]])}")
                used |= bool(pointed)
            else:
                perform(lambda: buffers.change(models[bound[o]], objs[o], step[2], 100 + n, step[3]), what)
                used |= bool(pointed)
            for i, r in enumerate(rs):
                if not same(r.content(), models[i]):
                    fail(f"{what}: file {i} holds {show(r.content())}, expected {show(models[i])}")
        for o, obj in enumerate(objs):
            data = perform(obj, "reading at the end")
            if not same(data, models[bound[o]]):
                fail(f"{case['cls']}: object {o} shows {show(data)} at the end, its file holds {show(models[bound[o]])}")
        stats.evals()
        return used


# -- schedules -------------------------------------------------------------------------------

CROSS_DICT = ["set", "update", "update value", "reset", "reset value", "setdefault", "eq", "ne", "set list", "keywords", "get", "pop",
              "values", "items"]
CROSS_LIST = ["set", "append", "extend", "iadd", "insert", "reset", "reset value", "eq", "lt", "contains", "remove", "index", "slice",
              "count", "ne", "ge"]


class SomeDict(dict):
    pass


class SomeList(list):
    pass


# The other collection may be given as a part of ordinary data.
WRAPPED = {
    "itself": lambda x: x,
    "list": lambda x: [x],
    "tuple": lambda x: (1, x),
    "dict": lambda x: {"x": x},
    "deep": lambda x: {"x": [0, ({"y": x},)]},
    "own dict": lambda x: SomeDict(x=x),
    "own list": lambda x: SomeList([x]),
    "user dict": lambda x: collections.UserDict(x=x),
    "user list": lambda x: collections.UserList([x]),
    "ordered": lambda x: collections.OrderedDict(x=SomeList([x])),
    "deque": lambda x: collections.deque([x]),
    "proxy": lambda x: types.MappingProxyType({"x": x}),
    "iterator": lambda x: iter(x),
    "generator": lambda x: (v for v in x),
    "items": lambda x: x.items() if hasattr(x, "items") else enumerate(x),
    "values": lambda x: x.values() if hasattr(x, "values") else reversed(x),
    "pairs": lambda x: (("k", x) for _ in range(2)),
    "twice": lambda x: [x, x],
}
MAPPINGS = ("dict", "deep", "own dict", "user dict", "ordered", "proxy")
SEQUENCES = ("list", "tuple", "own list", "user list", "deque", "twice")


def cross(c, other, name, wrapped="itself"):
    """An operation of a collection with another collection as its argument."""
    mapping = isinstance(other, boot.lib().SyncedDict) if wrapped == "itself" else wrapped in MAPPINGS
    sequence = isinstance(other, boot.lib().SyncedList) if wrapped == "itself" else wrapped in SEQUENCES
    other = WRAPPED[wrapped](other)
    if isinstance(c, boot.lib().SyncedDict):
        name = name if name in CROSS_DICT else "set"
        if name == "update" and (mapping or wrapped in ("items", "pairs")):
            c.update(other)
        elif name == "keywords":
            c.update(v=other)
        elif name == "get":
            c.get("missing", other)
        elif name == "pop":
            c.pop("missing", other)
        elif name == "values":
            other in c.values()
        elif name == "items":
            ("a", other) in c.items()
        elif name == "update value":
            c.update({"v": other})
        elif name == "reset" and mapping:
            c.reset(other)
        elif name == "reset value":
            c.reset({"v": {"w": other}})
        elif name == "setdefault":
            c.setdefault("new", other)
        elif name == "eq":
            c == other
        elif name == "ne":
            c != other
        elif name == "set list":
            c["s"] = [1, other]
        else:
            c["s"] = other
        return
    name = name if name in CROSS_LIST else "append"
    if name == "set" and len(c):
        c[0] = other
    elif name == "extend":
        c.extend(other)
    elif name == "iadd":
        c += other
    elif name == "insert":
        c.insert(0, other)
    elif name == "reset" and sequence:
        c.reset(other)
    elif name == "reset value":
        c.reset([other])
    elif name == "eq":
        c == other
    elif name == "lt" and sequence:
        c < other
    elif name == "contains":
        other in c
    elif name == "remove":
        c.remove(other)
    elif name == "index":
        c.index(other)
    elif name == "slice" and sequence:
        c[0:1] = other
    elif name == "count":
        c.count(other)
    elif name == "ne":
        c != other
    elif name == "ge" and sequence:
        c >= other
    else:
        c.append(other)


def gen_schedules(s, tier):
    family = s.choice(FAMILIES)
    buffered = family in buffers.FAMILIES
    # Two files; objects 0 and 1 on the first one, 2 on the second one, 3 of another class on the second one.
    case = {
        "family": family,
        "other": s.choice(FAMILIES),
        "kinds": [s.choice(["Dict", "List"]), s.choice(["Dict", "List"])],
        "wc": s.below(2),
        "context": s.choice([None, None, "backend", "tiny", "objects"]) if buffered else None,
        "capacity": s.choice([0, 1, 40]),
    }
    pool = ["op", "op", "cross", "cross", "cross", "read", "filename", "construct", "nav"]
    if buffered:
        pool += ["context", "backend", "capacity"]
    pool = gen.swarm(s, pool)

    def one(s):
        k = s.choice(pool)
        o = s.below(6)
        if k == "cross":
            return [k, o, s.below(6), s.choice(CROSS_DICT + CROSS_LIST), s.choice(list(WRAPPED)) if s.boolean() else "itself"]
        if k == "filename":
            return [k, s.below(4), s.below(2)]
        if k in ("op", "context", "backend"):
            return [k, o, s.choice(["set", "grow", "update", "clear", "reset", "remove", "pop", "nested"]), s.below(20)]
        if k == "capacity":
            return [k, s.choice([0, 1, 40, 10**6])]
        return [k, o]

    shape = s.choice([[1, 1], [1, 1], [2, 1], [2, 2], [1, 1, 1]])
    case["threads"] = [[one(s) for _ in range(n)] for n in shape]
    case["schedules"] = threads.schedules(s, len(shape), 10)
    return case


class Crowd:
    """Objects for a multi-threaded program."""

    def __init__(self, case, d):
        self.case = case
        names = [case["family"] + k for k in case["kinds"]]
        cfg = {"wc": case["wc"]}
        self.rs = [resources.make(n, d, cfg, f"f{i}") for i, n in enumerate(names)]
        self.rs.append(resources.make(case["other"] + case["kinds"][1], d, cfg, "f2"))
        for i, r in enumerate(self.rs):
            r.write(buffers.initial(r.kind, i))
        self.objs = [self.rs[0].open(), self.rs[0].open(), self.rs[1].open(), self.rs[2].open()]
        # Children of the first object and of the one on the second file.
        for o in (self.objs[0], self.objs[2]):
            k = ops.children(o())[0]
            self.objs.append(o[k])
        self.ctx = buffers.Contexts()
        self.cls = self.rs[0].cls
        if case["context"] == "objects":
            for o in self.objs[:3]:
                self.ctx.enter_object(o)
        elif case["context"]:
            for c in dict.fromkeys(r.cls for r in self.rs[:2]):
                self.ctx.enter_backend(c, case["capacity"] if case["context"] == "tiny" else None)
        self.errors = []

    def perform(self, step, t, i):
        kind = step[0]
        u = 100 + 10 * t + i
        if kind == "cross":
            cross(self.objs[step[1]], self.objs[step[2]], *step[3:])
        elif kind == "filename":
            # To the file of an object of the same kind.
            o = self.objs[step[1]]
            target = [r for r in self.rs if r.kind == ("dict" if isinstance(o, boot.lib().SyncedDict) else "list")]
            o.filename = target[step[2] % len(target)].path
        elif kind == "construct":
            r = self.rs[step[1] % 3]
            r.open()()
        elif kind == "op":
            o = self.objs[step[1]]
            buffers.change(o(), o, step[2], u, step[3])
        elif kind == "context":
            o = self.objs[step[1] % 4]
            if hasattr(type(o), "buffer_backend"):
                with o.buffered:
                    buffers.change(o(), o, step[2], u, step[3])
        elif kind == "backend":
            o = self.objs[step[1] % 4]
            if hasattr(type(o), "buffer_backend"):
                with type(o).buffer_backend(None if step[3] % 2 else 0):
                    buffers.change(o(), o, step[2], u, step[3])
        elif kind == "capacity":
            self.cls.set_buffer_capacity(step[1])
        elif kind == "nav":
            o = self.objs[step[1]]
            for k in ops.children(o())[:1]:
                c = o[k]
                c()
        else:
            self.objs[step[1]]()

    def do(self, step, t, i):
        try:
            self.perform(step, t, i)
        except sched.Abort:
            raise
        except Exception as e:
            self.errors.append([t, i, e])


def run_schedules(case, stats):
    base = {}
    nontrivial = False

    def execute(first, switches):
        with case_dir() as d:
            p = Crowd(case, d)

            def body(t):
                return lambda: [p.do(step, t, i) for i, step in enumerate(case["threads"][t])]

            s = sched.Scheduler([body(t) for t in range(len(case["threads"]))], [first], switches)
            s.run()
            what = f"{case['family']} {case['kinds']} context {case['context']}: {case['threads']}, first {first}, switches {switches}"
            if s.deadlock or s.overrun:
                boot.reload()
                sched.watch_lines()
                if s.deadlock:
                    fail(f"{what}: deadlock: {s.deadlock}")
                stats.count("inconclusive")
                return s
            for t, i, e in p.errors:
                if lock_error(e):
                    fail(f"{what}: {case['threads'][t][i]} raised {about(e)}")
                stats.count("error " + type(e).__name__)
            # Afterwards everything can still be used by another thread.
            for o in p.objs:
                in_thread(lambda: threads.attempt(o), what + "; then reading")
                in_thread(lambda: threads.attempt(lambda: buffers.change(o(), o, "grow", 1, 1)), what + "; then changing")
            while p.ctx.stack:
                threads.attempt(p.ctx.exit)
            for r in p.rs:
                in_thread(lambda: threads.attempt(lambda: r.open()()), what + "; then opening")
            if hasattr(p.cls, "set_buffer_capacity"):
                for r in p.rs:
                    if hasattr(r.cls, "set_buffer_capacity"):
                        r.cls.set_buffer_capacity(32 * 2**20 if "Memory" not in r.cls.__name__ else 1000)
            return s

    for first, switches in case["schedules"]:
        if first not in base:
            base[first] = threads.Base(execute(first, []))
            stats.evals()
        s = execute(first, base[first].resolve(switches))
        stats.evals()
        nontrivial |= s.exchanged > 0
        stats.count(f"exchanges {min(s.exchanged, 6)}")
    return nontrivial


# -- two collections, each an argument of an operation of the other one ----------------------


def crossing_cases(tier):
    """All operations with all kinds of arguments, in different classes."""
    n = 0
    for _ in range(8 if tier == "thorough" else 1):
        for kind in ("Dict", "List"):
            for name in CROSS_DICT if kind == "Dict" else CROSS_LIST:
                for wrapped in WRAPPED:
                    for second in ([name, wrapped], [None, wrapped]):
                        n += 1
                        r = random.Random(n)
                        other_kind = r.choice(["Dict", "List"]) if second[0] is None else kind
                        yield {
                            "families": [r.choice(FAMILIES), r.choice(FAMILIES)] if r.randrange(3) == 0 else [r.choice(FAMILIES)] * 2,
                            "kinds": [kind, other_kind],
                            "wc": r.randrange(2),
                            "steps": [
                                [name, wrapped],
                                [second[0] or r.choice(CROSS_DICT if other_kind == "Dict" else CROSS_LIST), wrapped],
                            ],
                            "child": r.choice([0, 0, 1, 2, 3]),
                            "context": r.randrange(3),
                        }
                # The most direct case, in all classes.
                for family in FAMILIES:
                    for child in (0, 3):
                        n += 1
                        yield {
                            "families": [family, family],
                            "kinds": [kind, kind],
                            "wc": n % 2,
                            "steps": [[name, "itself"], [name, "itself"]],
                            "child": child,
                            "context": n % 3,
                        }


def run_crossing(case, stats):
    def execute(switches):
        with case_dir() as d:
            rs = [
                resources.make(f + k, d, {"wc": case["wc"]}, f"f{i}")
                for i, (f, k) in enumerate(zip(case["families"], case["kinds"]))
            ]
            for i, r in enumerate(rs):
                r.write(buffers.initial(r.kind, i))
            objs = [r.open() for r in rs]
            used = [o[ops.children(o())[0]] if case["child"] >> i & 1 else o for i, o in enumerate(objs)]
            ctx = buffers.Contexts()
            for o, f in zip(objs[:case["context"]], case["families"]):
                if f in buffers.FAMILIES:
                    ctx.enter_object(o)
            errors = []

            def body(t):
                def run():
                    try:
                        cross(used[t], used[1 - t], *case["steps"][t])
                    except sched.Abort:
                        raise
                    except Exception as e:
                        errors.append(e)

                return run

            s = sched.Scheduler([body(0), body(1)], [0], switches)
            s.run()
            stats.evals()
            what = f"{case['families']} {case['kinds']}: {case['steps']}, child {case['child']}, switches {switches}"
            if s.deadlock:
                boot.reload()
                sched.watch_lines()
                fail(f"{what}: deadlock: {s.deadlock}")
            for e in errors:
                if lock_error(e):
                    fail(f"{what} raised {about(e)}")
            for o in objs:
                in_thread(lambda: threads.attempt(o), what + "; then reading")
            while ctx.stack:
                threads.attempt(ctx.exit)
            return s

    base = execute([])
    limit = base.tasks[0].done_at
    points = sorted({p + 1 for p in base.acquired if p < limit})
    twice = []
    for p in points:
        once = execute([[p, 1]])
        twice += [[[p, 1], [q + 1, 0]] for q in once.acquired if p <= q < once.tasks[1].done_at]
    # Some operations look at the other collection before they lock their own one.
    for switches in random.Random(repr(case)).sample(twice, min(len(twice), 12)):
        execute(switches)
    return len(points) > 1


SCENARIOS = [
    Scenario("crossing", run_crossing, cases=crossing_cases, own_evals=True, weight=5),
    Scenario("refused", run_refused, gen_refused, quick=4000, thorough=300000, own_evals=True),
    Scenario("filenames", run_filenames, gen_filenames, quick=2500, thorough=300000, own_evals=True),
    Scenario("faults", run_faults, gen_faults, quick=1000, thorough=100000, own_evals=True),
    Scenario("schedules", run_schedules, gen_schedules, quick=4000, thorough=300000, own_evals=True),
]
