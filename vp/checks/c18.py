"""C18: nested containers keep the root's family; attribute access equals item access."""

from .. import boot, buffers, gen, ops, values
from ..engine import Scenario, case_dir, fail
from ..resources import make, threading_config
from ..values import clone, same, show

LEVEL = "exploration"
RULE = (
    "Family: random programs of all mutators, outside writes that change kinds, buffered contexts and retained handles for "
    "every class; after every step all containers reachable by indexing, iterating, slicing, get and setdefault must be "
    "of the root's family, and a mutation at a random depth must persist. "
    "Names: for every attribute-access dict class, position and key (all protected names, all attributes of the class and of "
    "its instances, dunders, keywords, non-identifiers, ordinary names) a fixed list of accesses with attribute and "
    "item syntax, and random programs of them, are compared with a plain dict. "
    "Non-trivial: programs with a nested container, and all accesses by name."
)
ASSUMPTIONS = ["Setting and deleting attributes with the name of a public method is not specified and not tried."]
BUDGET = {"quick": 75, "thorough": 600}
TECHNIQUE = "property-based testing of programs with a walk over the types of all nodes, and enumeration of names"

ATTR_DICTS = ["JSONAttrDict", "BufferedJSONAttrDict", "MemoryBufferedJSONAttrDict"]


# -- family ------------------------------------------------------------------------------


def family(cls_name):
    prefix = cls_name[:-4]
    cls = boot.lib().cls
    return {dict: cls[prefix + "Dict"], list: cls[prefix + "List"]}


def check_type(c, m, fam, path):
    if type(c) is not fam[type(m)]:
        fail(f"{fam[dict].__name__[:-4]}: the container {show(m)} at {path} is a {type(c).__name__}")


def walk(c, m, fam, path, how):
    """All nodes must be of the family."""
    check_type(c, m, fam, path)
    ks = ops.children(m)
    if len(ks) > 8:
        ks = ks[:3] + [ks[len(ks) // 2]] + ks[-2:]
    for k in ks:
        if type(m) is list:
            if how == 1:
                child = list(c)[k]
            elif how == 2:
                child = c[k:][0]
            elif how == 3:
                child = list(reversed(c))[len(m) - 1 - k]
            else:
                child = c[k]
        elif how == 1:
            child = c.get(k)
        elif how == 2:
            child = c.setdefault(k, None)
        elif how == 3 and k.isidentifier() and not hasattr(type(c), k) and "Attr" in type(c).__name__ and not k.startswith("_"):
            child = getattr(c, k)
        else:
            child = c[k]
        walk(child, m[k], fam, path + [k], how)


def generate(s, tier):
    case = gen.program(
        s, gen.ALL, s.choice([[0], [0, 0, -1], [0, 1], [0, 1, -1]]), ops.DICT_MUTATORS, ops.LIST_MUTATORS,
        max_steps=8 if tier == "quick" else 16, objects=(1, 2),
    )
    name = case["cls"]
    buffered = name in boot.BUFFERED_CLASSES
    case["ctx"] = buffered and s.choice([None, None, "object", "backend", "tiny"])
    case["walks"] = [s.below(4) for _ in case["steps"]]
    case["grabs"] = s.list(lambda s: s.below(8), 0, 2)
    return case


def run(case, stats):
    name = case["cls"]
    with case_dir() as d, threading_config(case["cfg"]):
        w = ops.World(name, d, case["cfg"], case["init"], case["n"], "position")
        w.exact_order = False
        fam = family(name)
        ctx = buffers.Contexts()
        if case["ctx"] == "object":
            for o in w.objs:
                ctx.enter_object(o)
        elif case["ctx"]:
            ctx.enter_backend(w.res.cls, 0 if case["ctx"] == "tiny" else None)
        if ctx.stack:
            w.policy = "identity"
        nested = 0
        try:
            for i, step in enumerate(case["steps"]):
                if step[0] < 0 and ctx.stack:
                    # Outside writes conflict with the buffer.
                    step = [0] + step[1:]
                if i in case["grabs"]:
                    w.grab(step)
                w.step(step, results=False)
                for o in w.objs:
                    walk(o, w.model, fam, [], case["walks"][i])
                for h in w.handles:
                    check_type(h.synced, h.chain[-1], fam, h.path)
                nested += values.depth_of(w.model) > 1
                stats.count(f"depth {values.depth_of(w.model)}")
        finally:
            ctx.exit_all()
        # A mutation at the deepest place persists.
        c, m, path = w.objs[0], w.model, []
        while True:
            ks = ops.children(m)
            if not ks:
                break
            k = ks[len(path) % len(ks)]
            path.append(k)
            c, m = c[k], m[k]
        if type(m) is dict:
            c["deep"] = [1]
            m["deep"] = [1]
        else:
            c.append({"deep": 1})
            m.append({"deep": 1})
        w.changed = True
        w.check_resource(f"after a mutation at {path}")
        walk(w.objs[0], w.model, fam, [], 0)
        walk(w.res.open(), w.model, fam, [], 0)
        stats.count("class " + name)
        return nested > 0


# -- names -------------------------------------------------------------------------------

ORDINARY = [
    "a", "b", "x1", "foo", "data", "other", "self", "cls", "args", "kwargs", "key_", "default", "value", "parent", "name",
    "_private", "_x", "_", "write_concern", "root", "load", "save", "sync", "lock", "buffer", "is_buffered", "protected",
    "_buffer", "_lock", "_parent", "_key", "_cache", "_id", "_uid", "_file", "_path", "é", "中", "A", "class", "def", "None", "True",
    "import", "a b", "", " ", "0", "1a", "a-b", "\n", "\U0001f600", "x" * 300, "copy", "append", "extend", "insert", "sort",
    "index", "count", "remove", "reverse", "fromkeys", "has_key", "to_dict", "json", "dtype", "shape", "T",
    "a__", "x_", "_a__", "_x_", "a__b", "_a_b__", "_1", "_init_", "class__", "init__", "length", "size", "type", "id",
    "path", "file", "uid", "client", "mode", "state", "config", "version", "title", "result", "doc", "document", "project",
]
DUNDERS = [
    "__class__", "__dict__", "__len__", "__getitem__", "__setitem__", "__call__", "__iter__", "__contains__", "__reversed__",
    "__eq__", "__hash__", "__repr__", "__str__", "__doc__", "__module__", "__weakref__", "__slots__", "__init__", "__new__",
    "__copy__", "__deepcopy__", "__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__array__", "__array_interface__",
    "__array_struct__", "__len", "__x__", "__", "__foo", "__fspath__", "__index__", "__float__", "__enter__", "__exit__", "__await__",
    "__getattr__", "__setattr__", "__delattr__", "__abstractmethods__", "__bool__", "__missing__", "__length_hint__",
]
PROTECTED = [
    "_data", "_name", "_suspend_sync_", "_load", "_sync", "_root", "_validators", "_all_validators", "_load_and_save",
    "_suspend_sync", "_supports_threading", "_LoadSaveType", "registry", "_filename", "filename", "_write_concern",
]
PROTECTED_BUFFERED = ["_buffer_context", "_buffer_lock", "_buffered_collections", "_is_buffered", "buffered"]


_protected = {}


def protected_names(cls):
    """The names that the class protects now, and those documented as protected that still mean something."""
    if cls not in _protected:
        result = set()
        for base in cls.__mro__:
            for v in vars(base).values():
                if isinstance(v, (set, frozenset, list, tuple)) and "_data" in v and all(isinstance(n, str) for n in v):
                    result.update(v)
        with case_dir() as d:
            o = make(cls.__name__, d).open()
            meant = set(dir(cls)) | set(vars(o))
        # A name without underscore that means nothing is not internal.
        result = {n for n in result if n.startswith("_") or n in meant or n in PROTECTED + PROTECTED_BUFFERED}
        result.update(meant.intersection(PROTECTED))
        if "Buffered" in cls.__name__:
            result.update(meant.intersection(PROTECTED_BUFFERED))
        _protected[cls] = result
    return _protected[cls]


def all_names(cls_name):
    """Every name with a meaning for the class, as of now."""
    cls = boot.lib().cls[cls_name]
    with case_dir() as d:
        o = make(cls_name, d).open()
        o["d"] = {"d": {}}
        names = set(dir(cls)) | set(vars(o)) | set(vars(o["d"])) | protected_names(cls)
    return sorted(n for n in names | set(ORDINARY) | set(DUNDERS) | set(PROTECTED + PROTECTED_BUFFERED) if "." not in n)


def category(cls, obj, name):
    if name in protected_names(cls):
        return "protected"
    if name.startswith("__"):
        return "dunder"
    if hasattr(cls, name):
        return "attribute"
    if name in vars(obj):
        # An attribute of the instance that is stored in spite of not being protected.
        return "instance"
    return "ordinary"


BASE = {"d": {"e": {"x": 1}, "x": 1}, "l": [{"x": 1}, [{"x": 1}]], "x": 1}
POSITIONS = [[], ["d"], ["d", "e"], ["l", 0], ["l", 1, 0]]
CONTEXTS = [None, "object", "backend"]


def enumerate_names(tier):
    for cls_name in ATTR_DICTS:
        names = all_names(cls_name)
        for path in POSITIONS:
            for ctx in CONTEXTS if cls_name != "JSONAttrDict" else [None]:
                for name in names:
                    yield [cls_name, path, ctx, name]


class Named:
    """Accesses with both syntaxes on a container c and its model m."""

    def __init__(self, o, c, m, model, res, label, ctx):
        self.o, self.c, self.m, self.model, self.res, self.label, self.ctx = o, c, m, model, res, label, ctx

    def fail(self, text):
        fail(f"{self.label}: {text}")

    def check(self, what):
        shown = self.o()
        if not same(shown, self.model):
            self.fail(f"{what}: the collection is {show(shown)} instead of {show(self.model)}")
        if not self.ctx and not same(self.res.read(), self.model):
            self.fail(f"{what}: the file holds {show(self.res.read())} instead of {show(self.model)}")
        if not same(self.c(), self.m):
            self.fail(f"{what}: the container is {show(self.c())} instead of {show(self.m)}")

    def get(self, name, attr):
        c, m = self.c, self.m
        try:
            got = getattr(c, name) if attr else c[name]
        except (AttributeError if attr else KeyError):
            if name in m:
                self.fail(f"{name!r} is missing ({'attribute' if attr else 'item'}) although the data is {show(m)}")
            return
        if name not in m:
            self.fail(f"{'attribute' if attr else 'item'} {name!r} is {got!r:.80} although the data is {show(m)}")
        if not same(ops.plain(got), m[name]):
            self.fail(f"{'attribute' if attr else 'item'} {name!r} is {show(ops.plain(got))} instead of {show(m[name])}")
        if attr and hasattr(c, name) is not True:
            self.fail(f"hasattr({name!r}) is False")
        if type(m[name]) in (dict, list):
            check_type(got, m[name], family(type(self.o).__name__), [name])

    def set(self, name, value, attr):
        if attr:
            setattr(self.c, name, clone(value))
        else:
            self.c[name] = clone(value)
        self.m[name] = clone(value)
        self.check(f"setting {'attribute' if attr else 'item'} {name!r} to {show(value)}")

    def delete(self, name, attr):
        try:
            if attr:
                delattr(self.c, name)
            else:
                del self.c[name]
        except (AttributeError if attr else KeyError):
            if name in self.m:
                self.fail(f"{name!r} cannot be deleted ({'attribute' if attr else 'item'}) although the data is {show(self.m)}")
        else:
            if name not in self.m:
                self.fail(f"deleting the missing {'attribute' if attr else 'item'} {name!r} did not raise")
            del self.m[name]
        self.check(f"deleting {'attribute' if attr else 'item'} {name!r}")

    def ordinary(self, name):
        get, set_, delete = self.get, self.set, self.delete
        get(name, True)
        delete(name, True)
        get(name, False)
        delete(name, False)
        if getattr(self.c, name, "default") != "default":
            self.fail(f"getattr({name!r}) with a default does not return the default")
        for attr in (True, False):
            for value in (1, {"a": [1, {"b": 2}]}, [[], {"a": 1}], None, "x"):
                set_(name, value, attr)
                get(name, True)
                get(name, False)
            set_(name, {"n": {}}, attr)
            # A nested container reached by the attribute is live.
            getattr(self.c, name)["n"] = {"z": 1}
            getattr(self.c, name).n.z = 2
            self.m[name]["n"] = {"z": 2}
            self.check(f"changing the container at attribute {name!r}")
            delete(name, not attr)
            get(name, True)
            get(name, False)
            delete(name, attr)

    def special(self, name, cat):
        """Item access must not disturb the object."""
        c, m = self.c, self.m
        marker = "stored as an item"

        def state():
            try:
                return True, getattr(c, name)
            except AttributeError:
                return False, None

        def undisturbed(what):
            has, value = state()
            if has != had:
                self.fail(f"{what}: attribute {name!r} {'appeared' if has else 'vanished'}")
            if has and (type(value) is not type(old) or ops.plain(value) in (marker, {"nested": marker})):
                self.fail(f"{what}: attribute {name!r} became {value!r:.80}")

        had, old = state()
        undisturbed("before anything")
        self.set(name, marker, False)
        undisturbed("after setting the item")
        self.get(name, False)
        self.set(name, {"nested": marker}, False)
        undisturbed("after setting the item to a container")
        c[name]["nested"] = 1
        m[name]["nested"] = 1
        self.check(f"changing the container at item {name!r}")
        # The object still works.
        c["y"] = [1]
        m["y"] = [1]
        c.update({"z": {"w": 1}})
        m["z"] = {"w": 1}
        self.check(f"using the object while it holds an item {name!r}")
        fresh = self.res.open()
        if not self.ctx and not same(fresh(), self.model):
            self.fail(f"a fresh object shows {show(fresh())} instead of {show(self.model)}")
        self.delete(name, False)
        undisturbed("after deleting the item")
        self.delete(name, False)
        c.update({name: [marker]})
        m[name] = [marker]
        self.check(f"updating item {name!r}")
        if c.pop(name)() != [marker]:
            self.fail(f"pop({name!r}) returned something else")
        del m[name]
        self.check(f"popping item {name!r}")
        undisturbed("after popping the item")
        c.setdefault(name, marker)
        m[name] = marker
        undisturbed("after setdefault")
        self.check(f"setdefault of {name!r}")
        # Reload through outside write.
        if cat == "protected" or cat == "dunder":
            self.own(name, had, old, marker)
        self.delete(name, False)

    def own(self, name, had, old, marker):
        """Setting and deleting the attribute addresses the object itself."""
        c = self.c
        inst = name in vars(c)
        if inst:
            setattr(c, name, vars(c)[name])
            self.check(f"assigning the attribute {name!r} to itself")
        elif hasattr(type(c), name):
            if name.startswith("__") or name == "filename" and c is not self.o:
                return
            before = getattr(c, name)
            try:
                setattr(c, name, before)
            except AttributeError:
                pass  # It may be read-only.
            if c[name] != marker:
                self.fail(f"the item {name!r} is {c[name]!r:.80} after setting the attribute to its value")
            self.check(f"setting the attribute {name!r} to its value")
            if name in vars(c):
                delattr(c, name)
                if c.get(name) != marker:
                    self.fail(f"the item {name!r} is {c.get(name)!r:.80} after deleting the attribute")
                self.check(f"deleting the attribute {name!r}")
        else:
            setattr(c, name, "own")
            self.check(f"setting the attribute {name!r}")
            if getattr(c, name) != "own":
                self.fail(f"the attribute {name!r} is {getattr(c, name)!r:.80} after setting it")
            if c[name] != marker:
                self.fail(f"the item {name!r} is {c[name]!r:.80} after setting the attribute")
            delattr(c, name)
            self.check(f"deleting the attribute {name!r}")
            try:
                delattr(c, name)
            except AttributeError:
                pass
            else:
                self.fail(f"deleting the missing attribute {name!r} did not raise")
            self.check(f"deleting the missing attribute {name!r}")
            try:
                got = getattr(c, name)
            except AttributeError:
                pass
            else:
                self.fail(f"the missing attribute {name!r} is {got!r:.80}")


def start(cls_name, path, ctx_kind, d, label, base=BASE):
    res = make(cls_name, d)
    model = clone(base)
    res.write(model)
    o = res.open()
    ctx = buffers.Contexts()
    if ctx_kind == "object":
        ctx.enter_object(o)
    elif ctx_kind:
        ctx.enter_backend(res.cls)
    c, m = o, model
    for k in path:
        c, m = c[k], m[k]
    return ctx, Named(o, c, m, model, res, label, bool(ctx_kind))


def run_name(case, stats):
    cls_name, path, ctx_kind, name = case
    with case_dir() as d:
        ctx, n = start(cls_name, path, ctx_kind, d, f"{cls_name} at {path}")
        try:
            cat = category(boot.lib().cls[cls_name], n.c, name)
            stats.count("names " + cat)
            if cat == "instance":
                n.fail(f"the instance attribute {name!r} is not protected")
            if cat == "ordinary":
                n.ordinary(name)
            else:
                n.special(name, cat)
        finally:
            ctx.exit_all()
        n.ctx = False
        n.check("at the end")
        return True


def generate_names(s, tier):
    cls_name = s.choice(ATTR_DICTS)
    if cls_name not in _names:
        _names[cls_name] = all_names(cls_name)
    pool = s.subset(_names[cls_name] if s.boolean() else ORDINARY, 2, 4)
    value = gen._memo(values.values, 2, 2, values.SIMPLE_KEYS)

    def action(s):
        return [s.choice(["get", "set", "del"]), s.boolean(), s.choice(pool), value(s), s.below(len(POSITIONS)),
                s.choice(["keep", "keep", "keep", "fresh", "outside", "dotted"])]

    return [cls_name, s.choice(CONTEXTS) if cls_name != "JSONAttrDict" else None, s.list(action, 1, 12)]


_names = {}


def run_random(case, stats):
    cls_name, ctx_kind, actions = case
    cls = boot.lib().cls[cls_name]
    with case_dir() as d:
        ctx, n = start(cls_name, [], ctx_kind, d, cls_name)
        root, model = n.o, n.model
        try:
            for kind, attr, name, value, pos, how in actions:
                if how == "fresh" and not ctx_kind:
                    n.o = root = n.res.open()
                elif how == "outside" and not ctx_kind:
                    model["x"] = value
                    n.res.write(model, 1)
                c, m = root, model
                try:
                    for k in POSITIONS[pos]:
                        m = m[k]
                        if type(m) not in (dict, list):
                            raise KeyError
                    if type(m) is not dict:
                        raise KeyError
                except (KeyError, IndexError, TypeError):
                    m, pos = model, 0
                for k in POSITIONS[pos]:
                    c = getattr(c, k) if type(k) is str else c[k]
                n.c, n.m = c, m
                if how == "dotted":
                    # Keys with dots are rejected either way.
                    try:
                        if attr:
                            setattr(c, name + ".x", value)
                        else:
                            c[name + ".x"] = value
                    except ValueError:
                        pass
                    else:
                        if not (attr and name.startswith("__")):
                            n.fail(f"the key {name + '.x'!r} was accepted")
                    n.check("after a key with a dot")
                    continue
                cat = category(cls, c, name)
                if cat != "ordinary":
                    attr = False
                stats.count(f"{kind} {'attribute' if attr else 'item'} {cat}")
                if kind == "get":
                    n.get(name, attr)
                elif kind == "set":
                    n.set(name, value, attr)
                else:
                    n.delete(name, attr)
        finally:
            ctx.exit_all()
        n.ctx = False
        n.c, n.m = root, model
        n.check("at the end")
        return True


SCENARIOS = [
    Scenario("names", run_name, cases=enumerate_names),
    Scenario("name programs", run_random, generate_names, quick=20000, thorough=600000),
    Scenario("family", run, generate, quick=40000, thorough=1500000),
]
