"""Buffered contexts and content-changing operations for the checks of buffering."""

from . import boot, ops
from .engine import fail
from .values import clone

FAMILIES = ["BufferedJSON", "BufferedJSONAttr", "MemoryBufferedJSON", "MemoryBufferedJSONAttr"]


class Interruption(Exception):
    """Raised within the body of a with statement."""


class Contexts:
    """A stack of buffered contexts.

    Entries are (kind, target, cm) with kind "object" (target is the object) or
    "backend" (target is the class).
    """

    def __init__(self):
        self.stack = []

    def enter_object(self, obj, child=None):
        cm = (obj if child is None else child).buffered
        type(cm).__enter__(cm)
        self.stack.append(("object", obj, cm))

    def enter_backend(self, cls, capacity=None):
        cm = cls.buffer_backend() if capacity is None else cls.buffer_backend(capacity)
        type(cm).__enter__(cm)
        self.stack.append(("backend", cls, cm))

    def exit(self, index=-1, interrupted=False):
        """Leave a context; errors of the flush propagate."""
        kind, target, cm = self.stack.pop(index)
        if not interrupted:
            type(cm).__exit__(cm, None, None, None)
            return kind, target
        try:
            raise Interruption
        except Interruption as e:
            if type(cm).__exit__(cm, type(e), e, e.__traceback__):
                fail("leaving a buffered context swallowed the exception raised in its body")
        return kind, target

    def buffered(self, obj):
        return any(t is (obj if k == "object" else type(obj)) for k, t, _ in self.stack)

    def backend(self, cls):
        return any(k == "backend" and t is cls for k, t, _ in self.stack)

    def exit_all(self):
        while self.stack:
            self.exit()


# -- operations whose effect on the content is never nil ---------------------------------

CHANGES = ["set", "set", "nested", "nested", "update", "reset", "clear", "remove", "pop", "grow", "setdefault"]
LOOKS = ["call", "len", "get", "iter", "missing", "eq", "badremove"]


def initial(kind, n):
    """Content with nested containers that no change can restore."""
    if kind == "dict":
        return {"id": f"init{n}", "d": {"x": n}, "l": [n, {"y": n}], "s": filler(n)}
    return [f"init{n}", {"x": n}, [n, {"y": n}], filler(n)]


def filler(n):
    """A string that is long for some n."""
    return "x" * (n % 7) if n % 11 else "x" * 5000


def change(m, c, name, u, pick):
    """Perform a change on the model m and the collection c; u is unique, pick an integer."""
    val = [u, {"v": u}, [u, [u]], "u" * (u % 30 if u % 7 else 6000) + str(u)][pick % 4]
    is_dict = type(m) is dict
    if name in ("remove", "pop", "clear") and not m:
        name = "set"
    if name == "nested":
        keys = [k for k in ops.children(m)]
        if keys:
            k = keys[pick % len(keys)]
            change(m[k], c[k], ["set", "grow", "update", "clear", "reset"][pick % 5], u, pick // 2)
            return
        name = "grow"
    if is_dict:
        k = ["id", "d", "l", "s", f"k{u % 3}"][pick % 5]
        if name == "set":
            m[k] = clone(val)
            c[k] = val
        elif name == "grow":
            m[f"g{u}"] = clone(val)
            c[f"g{u}"] = val
        elif name == "setdefault":
            m.setdefault(f"g{u}", clone(val))
            c.setdefault(f"g{u}", val)
        elif name == "update":
            m.update({k: clone(val), f"g{u}": u})
            c.update({k: val, f"g{u}": u})
        elif name == "reset":
            m.clear()
            m.update({k: clone(val)})
            c.reset({k: val})
        elif name == "clear":
            m.clear()
            c.clear()
        else:
            k = sorted(m)[pick % len(m)]
            if name == "remove":
                del m[k]
                del c[k]
            else:
                m.pop(k)
                c.pop(k)
        return
    i = pick % len(m) if m else 0
    if name == "set" and m:
        m[i] = clone(val)
        c[i] = val
    elif name in ("grow", "set"):
        if pick % 2:
            m.append(clone(val))
            c.append(val)
        else:
            m.insert(i, clone(val))
            c.insert(i, val)
    elif name in ("update", "setdefault"):
        m.extend([clone(val), u])
        if pick % 2:
            c.extend([val, u])
        else:
            c += [val, u]
    elif name == "reset":
        m[:] = [clone(val)]
        c.reset([val])
    elif name == "clear":
        m.clear()
        c.clear()
    elif name == "remove":
        del m[i]
        del c[i]
    else:
        m.pop(i)
        c.pop(i)


def look(c, name):
    """Perform a read (or an operation that raises without any effect); return plain data or None."""
    is_dict = isinstance(c, boot.lib().SyncedDict)
    if name == "len":
        len(c)
    elif name == "get":
        if is_dict:
            c.get("id")
        else:
            c[0:1]
    elif name == "iter":
        for _ in c:
            pass
    elif name == "eq":
        c == {}
    elif name == "missing":
        try:
            c["missing key" if is_dict else 10**6]
        except (KeyError, IndexError):
            pass
        else:
            fail("reading a missing item did not raise")
    elif name == "badremove":
        try:
            if is_dict:
                del c["missing key"]
            else:
                c.remove("missing element")
        except (KeyError, ValueError):
            pass
        else:
            fail("removing a missing item did not raise")
    else:
        return c()
    return None


