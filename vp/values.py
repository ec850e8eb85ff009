"""Generators and comparison of JSON data."""

import json

# Keys are drawn from a small pool so that operations collide.
KEYS = ["a", "b", "c", "d", "", "0", "k e", "é", "data", "other"]
SIMPLE_KEYS = ["a", "b", "c", "d"]

# Values that are equal in Python but different in JSON, and other edge cases.
TWINS = [0, 0.0, False, 1, 1.0, True, None, "", "0", "null"]
EDGES = [
    2**31,
    -(2**31) - 1,
    2**53 + 1,
    2**63 - 1,
    -(2**63),
    1e308,
    5e-324,
    0.1,
    1e16,
    1.5,
    -7,
    "é中\U0001f600",
    "\x00\x1f\"\\/\b\n ",
    "x" * 40,
]
# Not representable in BSON.
BIG = [2**63, 2**64 + 1, -(2**200), 10**400, "\ud800", "\udc00x\ud83d"]


def scalars(big=False, edges=True):
    pool = TWINS + EDGES if edges else TWINS
    if big:
        pool = pool + BIG

    def gen(s):
        # Half of all scalars are from the small pool, where coincidences are likely.
        return s.choice(TWINS if s.boolean() else pool)

    return gen


def keys(pool=None):
    pool = pool or KEYS
    return lambda s: s.choice(pool)


def bulky(s):
    """Long strings, lists with many elements, dicts with many keys and deep nesting."""
    k = s.below(5)
    if k == 0:
        return s.choice(["x", "é\n"]) * s.choice([33, 70, 300, 5000])
    if k == 1:
        n = s.choice([17, 33, 70, 260, 1100])
        e = s.choice([0, None, "s", [], {}, [1], {"a": 1}])
        return [clone(e) for _ in range(n)]
    if k == 2:
        n = s.choice([17, 33, 70, 260])
        e = s.choice([0, None, "s", [], {}, [1], {"a": 1}])
        return {f"k{i}": clone(e) for i in range(n)}
    if k == 3:
        return list(range(s.choice([17, 33, 70, 260, 1100])))
    x = s.choice([0, [], {}])
    for i in range(s.between(6, 40)):
        x = [x] if s.boolean() else {"a": x}
    return x


def values(depth=2, width=3, pool=None, big=False, edges=True):
    """JSON values with at most `depth` levels of containers, apart from a few bulky ones."""
    leaf = scalars(big, edges)
    key = keys(pool)

    def level(n):
        if n == 0:
            return leaf
        inner = level(n - 1)

        def gen(s):
            k = s.below(4)
            if k < 2:
                return leaf(s)
            if k == 2:
                return dict(s.list(lambda s: (key(s), inner(s)), 0, width))
            return s.list(inner, 0, width)

        return gen

    top = level(depth)
    return lambda s: bulky(s) if s.one_in(80) else top(s)


def containers(depth=2, width=3, pool=None, kind=None, **kw):
    inner = values(depth - 1, width, pool, **kw)
    key = keys(pool)

    def gen(s):
        if kind == "dict" or (kind is None and s.boolean()):
            result = dict(s.list(lambda s: (key(s), inner(s)), 0, width))
            if s.one_in(24):
                # In front of or behind the other items.
                b = {s.choice(["bulk", "a"]): bulky(s)}
                result = {**b, **result} if s.boolean() else {**result, **b}
            return result
        result = s.list(inner, 0, width)
        if s.one_in(24):
            b = [bulky(s)]
            if s.boolean() and type(b[0]) is list:
                b = b[0]
            result = b + result if s.boolean() else result + b
        return result

    return gen


def jtype(x):
    if x is None:
        return "null"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, float):
        return "float"
    if isinstance(x, str):
        return "str"
    if type(x) is list:
        return "list"
    if type(x) is dict:
        return "dict"
    return "other:" + type(x).__name__


def same(a, b):
    """Equal with the same JSON type at every leaf."""
    t = jtype(a)
    if t != jtype(b) or t.startswith("other"):
        return False
    if t == "dict":
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if t == "list":
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def same_order(a, b):
    """Equal including the order of all keys."""
    return same(a, b) and json.dumps(a) == json.dumps(b)


def clone(x):
    if type(x) is dict:
        return {k: clone(v) for k, v in x.items()}
    if type(x) is list:
        return [clone(v) for v in x]
    return x


def depth_of(x):
    if type(x) is dict:
        return 1 + max(map(depth_of, x.values()), default=0)
    if type(x) is list:
        return 1 + max(map(depth_of, x), default=0)
    return 0


def show(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."
