"""C15: buffer size accounting is exact, bounded by the capacity, and returns to zero."""

import itertools
import json
import os

from .. import boot, buffers, gen
from ..engine import Scenario, case_dir, fail
from ..resources import make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case is a program over one to four files that mixes changes, reads, raising operations, arbitrarily nested "
    "per-object and backend-wide contexts (with and without a capacity) and set_buffer_capacity(), with capacities "
    "down to 0. After every action the reported size is compared with the encoded bytes of the buffered files "
    "(serialized) or the number of modified files (shared-memory) in a model. Non-trivial: a flush was "
    "forced by the capacity, or at least two files were buffered at once, and content was changed. "
    "In further programs files are changed from outside while they are buffered, so that flushes raise; the size must be "
    "that of the files that may still be buffered, and size and capacity must be restored on exit. "
    "Non-trivial: a flush raised."
)
ASSUMPTIONS = [
    "When an operation overflows the capacity, the buffer afterwards holds nothing, or only the file operated on: the "
    "number of loads an operation consists of is unspecified.",
    "Modifications that restore the original content are not generated.",
]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "stateful property-based testing against a model of the buffer"


def generate(s, tier):
    mode = s.choice(["backend", "mixed"])
    n = s.between(1, 4)
    caps = s.choice([[10**6, 5000], [0, 1, 2, 3, 10**6], [60, 61, 120, 150, 200, 1, 10**6]])

    def action(s):
        k = s.below(20)
        f = s.below(n)
        if k < 8:
            return ["change", f, s.below(2), s.choice(buffers.CHANGES), s.below(20)]
        if k < 12:
            return ["look", f, s.below(2), s.choice(buffers.LOOKS)]
        if k < 15:
            return ["enter", s.choice(["backend", "object"]), f, s.choice([None] + caps)]
        if k < 18:
            return ["exit", s.one_in(4)]
        return ["cap", s.choice(caps)]

    return {
        "family": s.choice(buffers.FAMILIES),
        "kind": s.choice(["Dict", "List"]),
        "mode": mode,
        "files": [
            {"objs": s.choice([1, 1, 2]) if mode == "backend" else 1, "missing": s.one_in(6)} for _ in range(n)
        ],
        "cfg": gen.config(s, "JSON"),
        "start": s.choice(["backend", "object", None]),
        "startcap": s.choice([None] + caps),
        "actions": s.list(action, 2, 24 if tier == "quick" else 50),
    }


class Run:
    def __init__(self, case, stats, d):
        self.case = case
        self.stats = stats
        self.memory = case["family"].startswith("Memory")
        self.res = [make(case["family"] + case["kind"], d, case["cfg"], f"f{i}") for i in range(len(case["files"]))]
        self.cls = self.res[0].cls
        self.content = []
        self.base = []  # content of the file on disk, as far as the model knows
        for i, (r, spec) in enumerate(zip(self.res, case["files"])):
            c = r.empty() if spec["missing"] else buffers.initial(r.kind, i)
            if not spec["missing"]:
                r.write(c)
            self.content.append(c)
            self.base.append(clone(c))
        self.objs = [[r.open() for _ in range(spec["objs"])] for r, spec in zip(self.res, case["files"])]
        self.ctx = buffers.Contexts()
        self.caps = []  # capacity to restore per context, or None
        self.held = {}  # file -> its share of the size
        self.unique = 100
        self.forced = 0
        self.most = 0
        self.changed = 0

    def buffered(self, i):
        return any(self.ctx.buffered(o) for o in self.objs[i])

    def size(self, i):
        return len(json.dumps(self.content[i]).encode())

    def check(self, what, candidates=None):
        got = self.cls.get_current_buffer_size()
        for held in candidates or [self.held]:
            if sum(held.values()) == got:
                self.held = dict(held)
                break
        else:
            fail(
                f"{self.cls.__name__}: reported buffer size {got} {what}, expected "
                + " or ".join(f"{sum(h.values())} {h}" for h in candidates or [self.held])
            )
        cap = self.cls.get_buffer_capacity()
        if got > cap:
            fail(f"{self.cls.__name__}: reported buffer size {got} exceeds the capacity {cap} {what}")
        if not self.ctx.stack and got:
            fail(f"{self.cls.__name__}: reported buffer size {got} without any buffered context {what}")
        self.most = max(self.most, len(self.held))

    def touched(self, i, change, what):
        """Update the model after an operation on file i."""
        if not self.buffered(i):
            self.check(what)
            return
        cap = self.cls.get_buffer_capacity()
        if self.memory:
            if not change:
                self.check(what)
                return
            new = {**self.held, i: 1}
            if len(new) <= cap:
                self.check(what, [new])
            else:
                self.forced += 1
                self.check(what, [{}] + ([{i: 1}] if cap >= 1 else []))
            return
        old_len = len(json.dumps(self.before).encode())
        new = {**self.held, i: self.size(i)}
        peak = max(sum({**self.held, i: old_len}.values()), sum(new.values()))
        if peak <= cap:
            self.check(what, [new])
        else:
            self.forced += 1
            alone = {i: self.size(i)}
            self.check(what, [h for h in ({}, alone, new) if sum(h.values()) <= cap])

    def change(self, i, o, name, pick):
        self.unique += 1
        self.before = clone(self.content[i])
        obj = self.objs[i][o % len(self.objs[i])]
        buffers.change(self.content[i], obj, name, self.unique, pick)
        self.changed += 1
        self.touched(i, True, f"after {name} on file {i}")

    def look(self, i, o, name):
        self.before = clone(self.content[i])
        got = buffers.look(self.objs[i][o % len(self.objs[i])], name)
        if got is not None and not same(got, self.content[i]):
            fail(f"{self.cls.__name__}: file {i} reads as {show(got)}, expected {show(self.content[i])}")
        self.touched(i, False, f"after {name} on file {i}")

    def set_cap(self, cap, what):
        """The model's view of a change of the capacity."""
        if self.cls.get_buffer_capacity() != cap:
            fail(f"{self.cls.__name__}: the capacity is {self.cls.get_buffer_capacity()} {what}, expected {cap}")
        if sum(self.held.values()) > cap:
            self.forced += 1
            self.check(what, [{}])
        else:
            self.check(what)

    def enter(self, kind, i, cap):
        if len(self.ctx.stack) >= 5:
            return
        if self.case["mode"] == "backend" or kind == "backend":
            old = self.cls.get_buffer_capacity()
            self.ctx.enter_backend(self.cls, cap)
            self.caps.append(old if cap is not None else None)
            self.set_cap(old if cap is None else cap, "after entering a backend-wide context")
        else:
            self.caps.append(None)
            self.ctx.enter_object(self.objs[i][0])
            self.check("after entering a per-object context")

    def leave(self, interrupted=False):
        cap = self.caps.pop()
        if cap is None:
            cap = self.cls.get_buffer_capacity()
        self.ctx.exit(interrupted=interrupted)
        self.held = {i: n for i, n in self.held.items() if self.buffered(i)}
        self.set_cap(cap, "after leaving a context")
        for i, r in enumerate(self.res):
            if not self.buffered(i) and not same(r.content(), self.content[i]):
                fail(f"{self.cls.__name__}: file {i} holds {show(r.content())}, expected {show(self.content[i])}")

    def run(self):
        case = self.case
        if case["start"]:
            self.enter(case["start"], 0, case["startcap"])
        for a in case["actions"]:
            if a[0] == "change":
                self.change(*a[1:])
            elif a[0] == "look":
                self.look(*a[1:])
            elif a[0] == "enter":
                self.enter(*a[1:])
            elif a[0] == "exit":
                if self.ctx.stack:
                    self.leave(a[1])
            else:
                self.cls.set_buffer_capacity(a[1])
                self.set_cap(a[1], "after set_buffer_capacity()")
        while self.ctx.stack:
            self.leave()
        self.check("at the end")
        for i, objs in enumerate(self.objs):
            for o in objs:
                if not same(o(), self.content[i]):
                    fail(f"{self.cls.__name__}: file {i} reads as {show(o())}, expected {show(self.content[i])}")


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        r = Run(case, stats, d)
        cap = r.cls.get_buffer_capacity()
        r.run()
        r.cls.set_buffer_capacity(cap)
        stats.count("forced flushes", r.forced)
        stats.count("family " + case["family"])
        return r.changed and (r.forced or r.most >= 2)


# -- flushes that raise ------------------------------------------------------------------


def generate_conflicts(s, tier):
    case = generate(s, tier)
    n = len(case["files"])
    actions = []
    for a in case["actions"]:
        actions.append(a)
        if s.one_in(4):
            actions.append(["ext", s.below(n), s.below(4)])
    case["actions"] = actions
    return case


def subsets(p):
    """All ways of dropping files from the buffer."""
    for n in range(len(p) + 1):
        for keys in itertools.combinations(p, n):
            yield {k: p[k] for k in keys}


class Conflicts(Run):
    """Files that are changed from outside while they are buffered are left alone until all contexts have exited."""

    def __init__(self, case, stats, d):
        super().__init__(case, stats, d)
        self.poss = [{}]  # what may be held
        self.frozen = set()
        self.raised = 0
        self.stamp = 17 * 10**17

    def observe(self, what, poss, returned=True):
        got = self.cls.get_current_buffer_size()
        cap = self.cls.get_buffer_capacity()
        poss = list(poss)
        self.poss = []
        for p in poss:
            if sum(p.values()) == got and p not in self.poss:
                self.poss.append(p)
        if not self.poss:
            sums = sorted({sum(p.values()) for p in poss})
            fail(f"{self.cls.__name__}: reported buffer size {got} {what}, expected one of {sums}")
        if returned and got > cap:
            fail(f"{self.cls.__name__}: reported buffer size {got} exceeds the capacity {cap} {what}")
        if not self.ctx.stack:
            if got:
                fail(f"{self.cls.__name__}: reported buffer size {got} without any buffered context {what}")
            self.settle(what)

    def settle(self, what):
        for i, r in enumerate(self.res):
            if i in self.frozen:
                self.content[i] = clone(r.content())
            elif not same(r.content(), self.content[i]):
                fail(f"{self.cls.__name__}: file {i} holds {show(r.content())} {what}, expected {show(self.content[i])}")
        self.frozen.clear()

    def call(self, function, *args):
        """Whether the library returned."""
        try:
            function(*args)
        except (boot.lib().BufferedError, boot.lib().MetadataError):
            self.raised += 1
            return False
        return True

    def operate(self, i, what, before, returned, change):
        if not self.buffered(i):
            if not returned:
                fail(f"{self.cls.__name__}: {what} raised although the file is not buffered")
            self.observe(f"after {what}", self.poss)
            return
        cap = self.cls.get_buffer_capacity()
        shares = [1] if self.memory else [before, self.size(i)]
        if not returned:
            self.frozen.add(i)
            self.observe(f"after {what} raised", [q for p in self.poss for x in shares for q in subsets({**p, i: x})], False)
            return
        poss = []
        for p in self.poss:
            q = p if self.memory and not change else {**p, i: shares[-1]}
            if max(sum({**p, i: x}.values()) for x in shares) <= cap:
                poss.append(q)
            else:
                poss.extend(subsets(q))
        self.observe(f"after {what}", poss)

    def change(self, i, o, name, pick):
        if i in self.frozen:
            return
        self.unique += 1
        self.changed += 1
        before = self.size(i)
        obj = self.objs[i][o % len(self.objs[i])]
        returned = self.call(buffers.change, self.content[i], obj, name, self.unique, pick)
        self.operate(i, f"{name} on file {i}", before, returned, True)

    def look(self, i, o, name):
        if i in self.frozen:
            return
        returned = self.call(buffers.look, self.objs[i][o % len(self.objs[i])], name)
        self.operate(i, f"{name} on file {i}", self.size(i), returned, False)

    def ext(self, i, how):
        if i in self.frozen:
            return
        self.unique += 1
        data = {"outside": self.unique} if self.res[i].kind == "dict" else [["outside"], self.unique]
        self.res[i].write(data, how)
        self.stamp += 10**9
        os.utime(self.res[i].path, ns=(self.stamp, self.stamp))
        if self.buffered(i):
            self.frozen.add(i)
        else:
            self.content[i] = data
        self.observe(f"after an outside change of file {i}", self.poss)

    def flushed(self, what, returned):
        cap = self.cls.get_buffer_capacity()
        poss = []
        for p in self.poss:
            p = {i: n for i, n in p.items() if self.buffered(i)}
            if returned and sum(p.values()) <= cap:
                poss.append(p)
            else:
                poss.extend(subsets(p))
        self.observe(what, poss, returned)

    def capacity_is(self, caps, what):
        if self.cls.get_buffer_capacity() not in caps:
            fail(f"{self.cls.__name__}: the capacity is {self.cls.get_buffer_capacity()} {what}, expected {caps[0]}")

    def cap(self, cap):
        old = self.cls.get_buffer_capacity()
        returned = self.call(self.cls.set_buffer_capacity, cap)
        self.capacity_is([cap] if returned else [cap, old], "after set_buffer_capacity()")
        self.flushed("after set_buffer_capacity()", returned)

    def enter(self, kind, i, cap):
        if len(self.ctx.stack) >= 5:
            return
        old = self.cls.get_buffer_capacity()
        if self.case["mode"] == "backend" or kind == "backend":
            returned = self.call(self.ctx.enter_backend, self.cls, cap)
            if returned:
                self.caps.append(None if cap is None else old)
            self.capacity_is([cap if returned and cap is not None else old], "after entering a backend-wide context")
            if self.cls.backend_is_buffered() != self.ctx.backend(self.cls):
                fail(f"{self.cls.__name__}: backend_is_buffered() is wrong after entering a context")
            self.flushed("after entering a backend-wide context", returned)
        else:
            self.caps.append(None)
            self.ctx.enter_object(self.objs[i][0])
            self.observe("after entering a per-object context", self.poss)

    def leave(self, interrupted=False):
        cap = self.caps.pop()
        if cap is None:
            cap = self.cls.get_buffer_capacity()
        returned = self.call(lambda: self.ctx.exit(interrupted=interrupted))
        self.capacity_is([cap], "after leaving a context")
        self.flushed("after leaving a context", returned)

    def run(self):
        case = self.case
        if case["start"]:
            self.enter(case["start"], 0, case["startcap"])
        for a in case["actions"]:
            if a[0] == "exit":
                if self.ctx.stack:
                    self.leave(a[1])
            else:
                getattr(self, a[0])(*a[1:])
        while self.ctx.stack:
            self.leave()


def run_conflicts(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        r = Conflicts(case, stats, d)
        cap = r.cls.get_buffer_capacity()
        r.run()
        r.cls.set_buffer_capacity(cap)
        stats.count("family " + case["family"])
        stats.count("raised", r.raised)
        return r.changed and r.raised


SCENARIOS = [
    Scenario("programs", run, generate, quick=150000, thorough=3000000),
    Scenario("conflicts", run_conflicts, generate_conflicts, quick=100000, thorough=2000000),
]
