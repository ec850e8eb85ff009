"""C08: a crash during a save leaves each JSON file wholly old or wholly new."""

import json
import os
import resource
import signal

from .. import boot, buffers, crash, gen, ops, values
from ..engine import HarnessError, Scenario, case_dir, fail
from ..resources import MISSING, JSONResource, threading_config
from ..values import clone, same, show

LEVEL = "fault_enumeration"
RULE = (
    "An evaluation is one crash point of one save or buffer flush. observed: generated programs over 1-3 files with all "
    "mutators and buffered contexts; the bytes of all files are looked at before every line executed outside of the "
    "harness, before and after every C call and after every piece of every write (single bytes for short contents). "
    "killed: the same kind of program runs in a forked process that is killed by SIGKILL at a point, or by the kernel "
    "after a number of bytes was written (RLIMIT_FSIZE, every length in turn); then the files are examined and opened by new objects. "
    "refused: operations storing content that cannot be serialized, in all write modes. Every file must hold the "
    "content it had or a content it was given, completely. Non-trivial: a file was written during the observed "
    "operations, the process was really killed, or the content was really refused."
)
ASSUMPTIONS = [
    "A crash is the death of the process; loss of data in the page cache (power failure) is not considered.",
    "Between two executed lines and outside of C calls nothing happens to files.",
]
BUDGET = {"quick": 60, "thorough": 600}
TECHNIQUE = "fault enumeration: observation at, and real kills at, all crash points of generated saves and flushes"

FAMILIES = ["JSON", "JSONAttr"] + buffers.FAMILIES
ATOMIC = [{}, {}, {"wc": 1}, {"mt_off": 1, "wc": 1}, {"mt_off": 1, "wc": 1}]


def canon(x):
    return json.dumps(x, sort_keys=True)


def parse(blob, path, allowed, what):
    """The content of a file; fails unless it is one of the allowed ones."""
    name = os.path.basename(path)
    if blob is None:
        if None not in allowed:
            fail(f"{name} does not exist {what}")
        return
    try:
        data = json.loads(blob)
    except ValueError:
        fail(f"{name} holds {show(blob)} {what}")
    if canon(data) not in allowed:
        fail(f"{name} holds {show(data)} {what}, which is neither its old nor its new content {show(sorted(map(str, allowed)))}")


class Tracked:
    """Worlds, and for each of them the contents its file may have."""

    def __init__(self, case, d):
        self.worlds = [
            ops.World(case["family"] + k, d, case["cfg"], init, 1, "identity", f"f{i}")
            for i, (k, init) in enumerate(zip(case["kinds"], case["init"]))
        ]
        self.paths = [w.res.path for w in self.worlds]
        self.ctx = buffers.Contexts()
        self.allowed = []
        for w in self.worlds:
            data = w.res.read()
            self.allowed.append({None} if data is MISSING else {canon(data)})

    def extend(self):
        for w, a in zip(self.worlds, self.allowed):
            a.add(canon(w.model))

    def settle(self):
        """Whatever is on disk now is the old content from now on."""
        for i, w in enumerate(self.worlds):
            blob = w.res.raw()
            self.allowed[i] = {None if blob is None else canon(json.loads(blob)), canon(w.model)}

    def act(self, action):
        """Perform an action; returns a description."""
        if action[0] == "enter":
            w = self.worlds[action[1] % len(self.worlds)]
            if w.cls_name not in boot.BUFFERED_CLASSES or len(self.ctx.stack) > 3:
                return "nothing"
            if action[2] == "object":
                self.ctx.enter_object(w.objs[0])
            else:
                self.ctx.enter_backend(w.res.cls, action[3])
            return "entering a context"
        if action[0] == "exit":
            if self.ctx.stack:
                self.ctx.exit()
            return "leaving a context"
        if action[0] == "capacity":
            cls = self.worlds[action[1] % len(self.worlds)].res.cls
            if hasattr(cls, "set_buffer_capacity"):
                old = cls.get_buffer_capacity()
                try:
                    cls.set_buffer_capacity(action[2])
                finally:
                    cls.set_buffer_capacity(old)
            return "setting the capacity"
        w = self.worlds[action[1] % len(self.worlds)]
        out = w.step(action[2], results=False)
        return f"{out.op[0]} at {out.path} of {w.cls_name}"


def generate(s, tier, kill=False):
    family = s.choice(FAMILIES)
    buffered = family in buffers.FAMILIES
    kinds = [s.choice(["Dict", "List"]) for _ in range(s.between(1, 3 if buffered else 1))]
    pool = values.SIMPLE_KEYS[:3] if s.boolean() else None
    value = gen._memo(values.values, 2, 3, pool, big=True)
    step = ops.steps([0], gen.swarm(s, ops.DICT_MUTATORS), gen.swarm(s, ops.LIST_MUTATORS), value, pool)

    def action(s):
        k = s.below(10) if buffered else 0
        if k < 7:
            return ["op", s.below(3), step(s)]
        if k == 7:
            return ["enter", s.below(3), s.choice(["object", "backend"]), s.choice([None, None, 0, 1, 30, 80])]
        if k == 8:
            return ["capacity", s.below(3), 0]
        return ["exit"]

    case = {
        "family": family,
        "kinds": kinds,
        "cfg": gen.named(s, s.choice(ATOMIC)),
        "init": [
            None if s.one_in(5) else gen._memo(values.containers, 3, 3, pool, kind=k.lower(), big=True)(s) for k in kinds
        ],
        "start": s.choice(["object", "backend", "backend"]) if buffered and not s.one_in(4) else None,
        "pad": s.choice([0, 0, 0, 0, 100, 5000, 9000]),
    }
    case["actions"] = s.list(action, 1, 3 if kill else 6)
    if kill:
        case["at"] = s.below(1000)
        case["how"] = s.choice(["point", "bytes"])
    return case


def prepare(case, d):
    t = Tracked(case, d)
    for w in t.worlds:
        if case["pad"]:
            # Contents larger than what is buffered by a file object.
            pad = "p" * case["pad"]
            if w.kind == "dict":
                w.model["pad"] = pad
                w.objs[0]["pad"] = pad
            else:
                w.model.append(pad)
                w.objs[0].append(pad)
    t.settle()
    return t


def program(case):
    if case["start"]:
        return [["enter", i, case["start"], None] for i in range(len(case["kinds"]))] + case["actions"]
    return case["actions"]


def run_observed(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        t = prepare(case, d)
        wrote = False
        points = 0

        def observe(action):
            nonlocal wrote, points
            with crash.Observer(t.paths) as obs:
                what = t.act(action)
            t.extend()
            points += obs.points
            for i, p in enumerate(t.paths):
                for k, blob in enumerate(obs.states[i]):
                    parse(blob, p, t.allowed[i], f"during {what}, state {k + 1} of {len(obs.states[i])}")
                if len(obs.states[i]) > 1:
                    wrote = True
                    stats.count("saves", len(obs.states[i]) - 1)
                    stats.count("saves " + what.split(" at ")[0])
            t.settle()

        for action in program(case):
            observe(action)
        while t.ctx.stack:
            observe(["exit"])
        for w in t.worlds:
            w.check_resource("at the end")
        stats.evals(points)
        stats.count("family " + case["family"])
        return wrote


def run_killed(case, stats):
    """Kill a process within the last actions, and look at what it left behind."""
    with case_dir() as d, threading_config(case["cfg"]):
        t = prepare(case, d)
        actions = program(case) + [["exit"]] * 4
        before = [w.res.raw() for w in t.worlds]

        # The parent learns from a first child how many points there are and what contents occur.
        def survey():
            with crash.Observer(t.paths) as obs:
                for action in actions:
                    t.act(action)
                    t.extend()
            return json.dumps([obs.points, [sorted(a, key=str) for a in t.allowed], [w.model for w in t.worlds]]).encode()

        sig, status, out = crash.in_child(survey)
        if sig or status:
            raise HarnessError(f"surveying process ended with {sig} {status}")
        total, allowed, models = json.loads(out)
        after = [w.res.raw() for w in t.worlds]
        for w, blob in zip(t.worlds, before):
            if blob is None:
                if os.path.exists(w.res.path):
                    os.remove(w.res.path)
            else:
                with open(w.res.path, "wb") as f:
                    f.write(blob)
        boot_state = [w.res.raw() for w in t.worlds]
        if boot_state != before:
            raise HarnessError("could not restore the files")
        wrote = before != after
        longest = max([len(b) for b in after if b] or [0])

        def doomed():
            if case["how"] == "bytes":
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                # The interpreter ignores this signal.
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (case["at"] % max(longest, 1),) * 2)
                for action in actions:
                    t.act(action)
                return
            with crash.Observer([], kill_at=1 + case["at"] * total // 1000):
                for action in actions:
                    t.act(action)

        # Flushes of the doomed process compare the state of the files with that at the time of reading.
        sig, status, _ = crash.in_child(doomed)
        for i, w in enumerate(t.worlds):
            parse(w.res.raw(), w.res.path, allowed[i], f"after the process was killed ({sig})")
            data = w.res.content()
            new = JSONResource(w.cls_name, d, case["cfg"], f"f{i}").open()
            if not same(new(), data):
                fail(f"a new object shows {show(new())}, but {w.res.path} holds {show(data)}")
            if w.kind == "dict":
                new["after"] = 1
                data["after"] = 1
            else:
                new.append("after")
                data.append("after")
            if not same(w.res.read(), data):
                fail(f"after a new object changed it, {w.res.path} holds {show(w.res.read())} instead of {show(data)}")
        stats.evals()
        stats.count(f"killed by signal {sig}" if sig else f"not killed, exit status {status}")
        return sig != 0 and wrote


# -- content that cannot be serialized ----------------------------------------------------

BAD = ["bigint", "negative", "deep list", "deep dict", "deeper"]


def make_bad(name, depth):
    if name == "bigint":
        return 10**5000
    if name == "negative":
        return {"n": [-(10**4400)]}
    x = [] if name == "deep list" else {}
    for _ in range(depth if name != "deeper" else depth * 20):
        x = [x] if name == "deep list" else {"a": x}
    return x


def gen_refused(s, tier):
    cls_name = s.choice([f + k for f in FAMILIES for k in ("Dict", "List")])
    kind = gen.kind_of(cls_name)
    return {
        "cls": cls_name,
        "cfg": gen.named(s, s.choice([{}, {"wc": 1}, {"mt_off": 1}, {"mt_off": 1}, {"mt_off": 1, "wc": 1}])),
        "init": gen._memo(values.containers, 3, 3, None, kind=kind, big=True)(s),
        "nav": s.list(lambda s: s.below(4), 0, 2),
        "op": s.choice(["set", "update", "reset", "grow", "setdefault", "construct"]),
        "bad": s.choice(BAD),
        "depth": s.choice([300, 450, 600, 900, 1100, 5000]),
        "around": s.choice(["none", "list", "dict"]),
        "context": s.choice([None, "object", "backend"]) if cls_name in boot.BUFFERED_CLASSES else None,
        "pad": s.choice([0, 100, 9000]),
        "good": s.boolean(),
    }


def store(c, op, x):
    """Store x by an operation of any kind of collection."""
    is_dict = isinstance(c, boot.lib().SyncedDict)
    if op == "set":
        if is_dict:
            c["zz"] = x
        elif len(c):
            c[0] = x
        else:
            c.append(x)
    elif op == "update":
        if is_dict:
            c.update({"a": 1, "zz": x, "zzz": 1})
        else:
            c.extend([1, x, 2])
    elif op == "reset":
        c.reset({"a": 1, "zz": x, "zzz": 1} if is_dict else [1, x, 2])
    elif op == "setdefault":
        if is_dict:
            c.setdefault("zz", x)
        else:
            c.insert(0, x)
    elif is_dict:
        c["zz"] = x
    else:
        c.append(x)


def run_refused(case, stats):
    with case_dir() as d, threading_config(case["cfg"]):
        res = JSONResource(case["cls"], d, case["cfg"], "f0")
        init = clone(case["init"])
        if res.kind == "dict":
            init["pad"] = "p" * case["pad"]
        else:
            init.append("p" * case["pad"])
        res.write(init)
        before = res.raw()
        obj = res.open()
        ctx = buffers.Contexts()
        if case["context"] == "object":
            ctx.enter_object(obj)
        elif case["context"] == "backend":
            ctx.enter_backend(res.cls)
        good = False
        if case["good"]:
            store(obj, "grow", "good")
            good = True
        allowed = {canon(init)}
        if good:
            if res.kind == "dict":
                init["zz"] = "good"
            else:
                init.append("good")
            allowed.add(canon(init))
        x = make_bad(case["bad"], case["depth"])
        x = [1, x, 2] if case["around"] == "list" else {"a": 1, "b": x} if case["around"] == "dict" else x
        refused = None
        raised = False
        try:
            if case["op"] == "construct":
                res.cls(filename=res.given, write_concern=bool(case["cfg"].get("wc")),
                        data={"x": x} if res.kind == "dict" else [x])
            else:
                c = obj
                for k in ops.descend(init, case["nav"])[0]:
                    c = c[k]
                store(c, case["op"], x)
        except (ValueError, RecursionError, TypeError) as e:
            raised, refused = True, e
        while ctx.stack:
            try:
                ctx.exit()
            except (ValueError, RecursionError, TypeError, boot.lib().BufferedError) as e:
                raised, refused = True, e
        blob = res.raw()
        if raised and case["cls"].startswith("Memory") and case["context"] and case["bad"] not in ("bigint", "negative"):
            # The error occurred half way through a change of the buffered data, which is then written as it is.
            data = json.loads(blob)
            if type(data) is not type(init):
                fail(f"{res.path} holds {show(data)} after storing {case['bad']} was refused")
            res.open()()
        elif raised:
            parse(blob, res.path, allowed, f"after storing {case['bad']} was refused with {type(refused).__name__}")
            new = res.open()
            if canon(new()) not in allowed:
                fail(f"a new object shows {show(new())}")
            stats.count("refused " + case["bad"])
        elif blob != before:
            try:
                json.loads(blob)
            except (ValueError, RecursionError):
                if case["bad"] in ("bigint", "negative"):
                    fail(f"{res.path} holds {show(blob)} after {case['bad']} was stored without an error")
        stats.evals()
        return raised


SCENARIOS = [
    Scenario("refused", run_refused, gen_refused, quick=3000, thorough=100000, own_evals=True),
    Scenario("killed", run_killed, lambda s, tier: generate(s, tier, True), quick=3000, thorough=200000, own_evals=True),
    Scenario("observed", run_observed, generate, quick=6000, thorough=200000, own_evals=True),
]
