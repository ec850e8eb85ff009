"""C07: a buffered flush never silently overwrites a file changed by someone else."""

import json
import os

from .. import boot, buffers, gen
from ..engine import Scenario, case_dir, fail
from ..resources import MISSING, make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "A case is a program over one to four buffered files (one or two objects each) that mixes changes, reads, outside "
    "writes (new content with another size, with the same size, with the same or an older modification time, "
    "replaced or deleted files), per-object and backend-wide contexts, and flushes forced by the capacity. Every "
    "flush must raise exactly for the files that were changed on both sides, and files on disk are compared with a "
    "model after every action. Non-trivial: at least one flush had a conflict."
)
ASSUMPTIONS = [
    "Outside changes alter the size or the modification time of the file.",
    "A modification of the buffered copy that restores the original content is not generated.",
    "A file changed outside between a forced flush and its next access, or deleted, is not operated on again "
    "until the contexts have exited: whether it is still buffered is unspecified.",
]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "stateful property-based testing with outside writers against a model of the buffer"

# Differences of modification times in nanoseconds.
SOON = [1, 100, 10**4, 10**7, 3 * 10**8, -1, -100, -(10**8)]


def generate(s, tier):
    family = s.choice(buffers.FAMILIES)
    kind = s.choice(["Dict", "List"])
    mode = s.choice(["backend", "mixed"])
    n = s.between(1, 4)
    files = [
        {"objs": s.choice([1, 1, 2]) if mode == "backend" else 1, "missing": s.one_in(6)}
        for _ in range(n)
    ]
    tight = s.one_in(3)

    def action(s):
        k = s.below(20)
        f = s.below(n)
        if k < 6:
            return ["change", f, s.below(2), s.choice(buffers.CHANGES), s.below(20)]
        if k < 9:
            return ["look", f, s.below(2), s.choice(buffers.LOOKS)]
        if k < 14:
            return ["ext", f, s.choice([0, 0, 1, 1, 2, 3, 5, 4, 6]), s.choice(SOON)]
        if k < 16:
            return ["enter", s.choice(["backend", "object"]), f, s.choice([None, None, 10**7])]
        if k < 18:
            return ["exit", s.one_in(4)]
        if k == 18:
            return ["cap"]
        return ["tight", s.choice([1, 2, 0, 60, 120, 200])] if tight else ["look", f, 0, "call"]

    return {
        "family": family,
        "kind": kind,
        "mode": mode,
        "files": files,
        "tight": tight,
        "cfg": gen.config(s, "JSON"),
        "start": s.choice(["backend", "object", None]),
        "actions": s.list(action, 2, 22 if tier == "quick" else 45),
    }


class File:
    def __init__(self, case, d, i, spec):
        self.i = i
        self.res = make(case["family"] + case["kind"], d, case["cfg"], f"f{i}")
        self.disk = None if spec["missing"] else buffers.initial(self.res.kind, i)
        if self.disk is not None:
            self.res.write(self.disk)
            self.res.backdate()
        self.print = self.res.fingerprint()
        self.objs = [self.res.open() for _ in range(spec["objs"])]
        self.entry = None
        self.metas = set()  # sizes and modification times the file has had
        self.dead = False  # deleted from outside
        self.frozen = False  # not operated on until the contexts have exited
        self.accept = None  # acceptable contents after an error in the middle of an operation

    def logical(self):
        return self.res.empty() if self.disk is None else clone(self.disk)


class Run:
    def __init__(self, case, stats, d):
        self.case = case
        self.stats = stats
        self.files = [File(case, d, i, spec) for i, spec in enumerate(case["files"])]
        self.cls = self.files[0].res.cls
        self.ctx = buffers.Contexts()
        self.unique = 100
        self.stamp = 17 * 10**17
        self.conflicts = 0
        self.capacity = self.cls.get_buffer_capacity()
        self.tight = False
        self.saved_caps = []

    def name(self, f):
        return f"{self.case['family']}{self.case['kind']} file {f.i}"

    def buffered(self, f):
        return any(self.ctx.buffered(o) for o in f.objs)

    # -- what is on disk

    def verify(self, what):
        for f in self.files:
            if f.res.fingerprint() == f.print and f.accept is None:
                continue
            real = f.res.read()
            want = MISSING if f.disk is None else f.disk
            if f.accept is not None:
                if not any(real is a or same(real, a) for a in f.accept):
                    fail(f"{self.name(f)} holds {show(real)} {what}, expected one of {show(f.accept)}")
                f.disk = None if real is MISSING else real
            elif f.entry is None and real is MISSING and f.disk == f.res.empty():
                f.disk = None
            elif not same(real, want) or f.res.fingerprint() != f.print:
                fail(f"{self.name(f)} was written {what}: it holds {show(real)}, expected {show(want)} untouched")
            f.print = f.res.fingerprint()

    def written(self, f):
        """The file was written by the library."""
        f.print = f.res.fingerprint()
        real = f.res.read()
        if not same(real, f.disk):
            fail(f"{self.name(f)} holds {show(real)} after a flush, expected {show(f.disk)}")

    # -- actions

    def change(self, f, o, name, pick):
        if f.dead or f.frozen:
            return
        obj = f.objs[o % len(f.objs)]
        self.unique += 1
        if not self.buffered(f):
            content = f.logical()
            buffers.change(content, obj, name, self.unique, pick)
            f.disk = content
            self.written(f)
            return
        e = self.access(f)
        before = clone(e["content"])
        was_dirty = e["dirty"]
        try:
            buffers.change(e["content"], obj, name, self.unique, pick)
            if same(e["content"], e["base"]):
                # Whether restoring the original content is a modification is unspecified.
                self.unique += 1
                buffers.change(e["content"], obj, "grow", self.unique, pick)
        except boot.lib().BufferedError as err:
            if not self.tight:
                raise
            # The operation forced a flush; it may or may not have been applied.
            e["dirty"] = was_dirty
            self.check_error(err, [g for g in self.files if g.entry and g.entry["dirty"] and g.entry["ext"]])
            accept = [MISSING if f.disk is None else f.disk, before, clone(e["content"])]
            in_conflict = was_dirty and e["ext"]
            for g in self.files:
                if g is f:
                    continue
                self.flushed(g)
            if in_conflict:
                self.flushed(f)
            else:
                f.accept = accept
                f.frozen = True
                f.entry = None
            return
        e["dirty"] = True
        if self.tight:
            self.detect()

    def detect(self):
        """Find out whether an operation forced a flush, and of which files."""
        dirty = [g for g in self.files if g.entry and g.entry["dirty"] and not g.entry["ext"]]
        hit = [g for g in dirty if g.res.fingerprint() != g.print]
        if hit:
            bad = [g for g in self.files if g.entry and g.entry["dirty"] and g.entry["ext"]]
            if bad:
                fail(f"a forced flush did not raise although {[self.name(g) for g in bad]} changed on disk")
            for g in self.files:
                # The file operated on may have been loaded again after the flush.
                if g not in dirty or g in hit:
                    self.flushed(g)

    def access(self, f):
        if f.entry is None:
            f.entry = {"content": f.logical(), "dirty": False, "ext": False, "flushed": False, "based": f.disk is not None,
                       "base": f.logical()}
        f.entry["flushed"] = False
        return f.entry

    def look(self, f, o, name):
        if f.dead or f.frozen:
            return
        obj = f.objs[o % len(f.objs)]
        content = self.access(f)["content"] if self.buffered(f) else f.logical()
        try:
            got = buffers.look(obj, name)
        except boot.lib().BufferedError as err:
            # Reading can overflow the serialized buffer.
            if not self.tight:
                raise
            self.check_error(err, [g for g in self.files if g.entry and g.entry["dirty"] and g.entry["ext"]])
            for g in self.files:
                self.flushed(g)
            return
        if got is not None and not same(got, content):
            fail(f"{self.name(f)} reads as {show(got)}, expected {show(content)}")
        if self.tight:
            self.detect()

    def ext(self, f, how, soon):
        if f.dead:
            return
        path = f.res.path
        self.stamp += 10**9
        self.unique += 1
        old = os.stat(path) if os.path.exists(path) else None
        if old:
            f.metas.add((old.st_size, old.st_mtime_ns))
        if how == 4:
            if old is None:
                return
            os.remove(path)
            f.disk = None
            f.dead = True
        else:
            content = buffers.initial(f.res.kind, self.unique)
            blob = json.dumps(content)
            if how in (1, 6) and old is not None and len(blob) + 1 <= old.st_size:
                blob += " " * (old.st_size - len(blob))
            elif old is not None and len(blob) == old.st_size:
                blob += " "
            if how == 3:
                with open(path + ".new", "w") as fh:
                    fh.write(blob)
                os.replace(path + ".new", path)
            else:
                with open(path, "w") as fh:
                    fh.write(blob)
            stamp = self.stamp
            if old is not None and how == 2 and len(blob) != old.st_size:
                stamp = old.st_mtime_ns
            elif old is not None and how == 5:
                stamp = min(old.st_mtime_ns, stamp) - 10**15
            elif old is not None and how == 6:
                stamp = old.st_mtime_ns + soon
            if (len(blob), stamp) in f.metas:
                # Indistinguishable from an earlier state.
                stamp = self.stamp
            f.metas.add((len(blob), stamp))
            os.utime(path, ns=(stamp, stamp))
            f.disk = content
        f.accept = None
        f.print = f.res.fingerprint()
        e = f.entry
        if e:
            # A file created after the missing one was buffered, and then deleted, is back where it was.
            e["ext"] = e["based"] or f.disk is not None
            f.dead &= e["ext"]
            if e["flushed"] or (self.case["tight"] and not e["dirty"]):
                f.frozen = True
        self.stats.count(f"outside change {how}")

    def check_error(self, err, conflicts):
        """A backend-wide flush raised: exactly the conflicting files must be named."""
        named = set(getattr(err, "files", {}))
        want = {f.res.given for f in conflicts}
        self.conflicts += len(conflicts)
        self.stats.count("conflicts of backend-wide flushes", len(conflicts))
        if named != want:
            fail(
                f"{type(err).__name__} names {sorted(map(os.path.basename, named))}, "
                f"expected {sorted(map(os.path.basename, want))}"
            )

    def flushed(self, f):
        """A forced flush included this file."""
        e = f.entry
        if not e:
            return
        if e["dirty"] and e["ext"]:
            f.entry = None
            f.frozen = True
        elif e["dirty"]:
            f.disk = clone(e["content"])
            self.written(f)
            e.update(dirty=False, flushed=True, based=True, base=clone(e["content"]))
        elif e["ext"]:
            f.frozen = True
        else:
            e["flushed"] = True

    def cap(self):
        if not self.ctx.stack:
            return
        before = self.cls.get_buffer_capacity()
        conflicts = [f for f in self.files if f.entry and f.entry["dirty"] and f.entry["ext"]]
        try:
            try:
                self.cls.set_buffer_capacity(0)
            finally:
                self.cls.set_buffer_capacity(before)
        except boot.lib().BufferedError as err:
            if not conflicts:
                fail(f"a forced flush raised {err!r} although no file was changed on both sides")
            self.check_error(err, conflicts)
        else:
            if conflicts:
                fail(f"a forced flush did not raise although {[self.name(f) for f in conflicts]} changed on disk")
        for f in self.files:
            self.flushed(f)
        self.stats.count("forced flushes")

    def enter(self, kind, f, capacity):
        if len(self.ctx.stack) >= 5:
            return
        if self.case["mode"] == "backend" or kind == "backend":
            if self.tight:
                capacity = None
            self.saved_caps.append(self.cls.get_buffer_capacity())
            self.ctx.enter_backend(self.cls, capacity)
        else:
            self.saved_caps.append(None)
            self.ctx.enter_object(f.objs[0])

    def leave(self, interrupted=False):
        lib = boot.lib()
        kind, target, _ = self.ctx.stack[-1]
        rest = buffers.Contexts()
        rest.stack = self.ctx.stack[:-1]
        leaving = [f for f in self.files if self.buffered(f) and not any(rest.buffered(o) for o in f.objs)]
        conflicts = [f for f in leaving if f.entry and f.entry["dirty"] and f.entry["ext"]]
        saved = self.saved_caps.pop()
        try:
            self.ctx.exit(interrupted=interrupted)
        except lib.BufferedError as err:
            if kind == "object":
                fail(f"leaving a per-object context raised {err!r}, expected MetadataError or nothing")
            if not conflicts:
                fail(f"leaving a context raised {err!r} although no file was changed on both sides")
            self.check_error(err, conflicts)
        except lib.MetadataError as err:
            if kind == "backend":
                fail(f"leaving a backend-wide context raised {err!r}, expected BufferedError or nothing")
            if not conflicts:
                fail(f"leaving a context raised {err!r} although the file was not changed on both sides")
            self.conflicts += 1
            self.stats.count("conflicts of per-object flushes")
        else:
            if conflicts:
                fail(f"leaving a {kind} context did not raise although {[self.name(f) for f in conflicts]} changed on disk")
        for f in leaving:
            e = f.entry
            if e and e["dirty"] and not e["ext"]:
                f.disk = clone(e["content"])
                self.written(f)
            f.entry = None
            f.frozen = False
        if kind == "backend" and saved is not None and not self.tight:
            if self.cls.get_buffer_capacity() != saved:
                fail(f"the capacity is {self.cls.get_buffer_capacity()} after the context exited, it was {saved}")
        if not self.ctx.stack and self.cls.get_current_buffer_size() != 0:
            fail(f"buffer size is {self.cls.get_current_buffer_size()} after all contexts exited")
        self.verify("when leaving a context")
        for f in leaving:
            f.accept = None

    def finish(self):
        while self.ctx.stack:
            self.leave()
            self.verify("when leaving a context")
        if self.cls.get_current_buffer_size() != 0:
            fail(f"buffer size is {self.cls.get_current_buffer_size()} after all contexts exited")
        self.cls.set_buffer_capacity(self.capacity)
        for f in self.files:
            f.accept = None
            for o in f.objs:
                if not f.dead:
                    got = o()
                    if not same(got, f.logical()):
                        fail(f"{self.name(f)} shows {show(got)} after the contexts exited, the file holds {show(f.logical())}")
        self.verify("by reading")
        for f in self.files:
            for o in f.objs:
                self.unique += 1
                if f.dead:
                    # Deleted: what the collection is based on is unspecified.
                    buffers.change(o(), o, "grow", self.unique, 0)
                    if f.res.read() is MISSING:
                        fail(f"{self.name(f)} was not written after the contexts exited")
                    continue
                content = f.logical()
                buffers.change(content, o, "grow", self.unique, 0)
                f.disk = content
                self.written(f)

    def run(self):
        case = self.case
        if case["start"]:
            self.enter(case["start"], self.files[0], None)
        for a in case["actions"]:
            if a[0] == "change":
                self.change(self.files[a[1]], *a[2:])
            elif a[0] == "look":
                self.look(self.files[a[1]], *a[2:])
            elif a[0] == "ext":
                self.ext(self.files[a[1]], *a[2:])
            elif a[0] == "enter":
                self.enter(a[1], self.files[a[2]], a[3])
            elif a[0] == "exit":
                if self.ctx.stack:
                    self.leave(a[1])
            elif a[0] == "cap":
                self.cap()
            elif a[0] == "tight" and not any(f.entry for f in self.files):
                # From here on operations force flushes themselves.
                self.cls.set_buffer_capacity(a[1])
                self.tight = True
            self.verify(f"after {a}")
        self.finish()


def run(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        cls = boot.lib().cls[case["family"] + case["kind"]]
        capacity = cls.get_buffer_capacity()
        r = Run(case, stats, d)
        r.run()
        if cls.get_buffer_capacity() != capacity:
            fail(f"the capacity is {cls.get_buffer_capacity()}, it was {capacity}")
        stats.count("family " + case["family"])
        return r.conflicts > 0


SCENARIOS = [Scenario("programs", run, generate, quick=150000, thorough=3000000)]
