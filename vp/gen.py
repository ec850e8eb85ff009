"""Generators shared by several checks."""

from . import boot, ops, resources, values

ALL = list(boot.ALL_CLASSES)
CONFIGS = [{}, {}, {"wc": 1}, {"mt_off": 1}, {"mt_off": 1, "wc": 1}]


def config(s, cls_name):
    if cls_name.startswith("Zarr") and s.one_in(3):
        return {"codec": s.between(1, 2)}
    if "JSON" not in cls_name:
        return {}
    cfg = named(s, s.choice(CONFIGS))
    if s.one_in(4):
        # The format in which the file is written in the beginning.
        cfg = dict(cfg, fmt=s.between(1, 15))
    return cfg


def named(s, cfg):
    """With an unusual name of the file, at times."""
    return dict(cfg, fn=s.between(1, len(resources.FILENAMES))) if s.one_in(6) else cfg


def kind_of(cls_name):
    return "list" if cls_name.endswith("List") else "dict"


def big_ok(cls_name):
    return not cls_name.startswith("Mongo")


def swarm(s, pool):
    """All of the pool, or a few of its members: this makes unlikely combinations frequent."""
    names = sorted(set(pool), key=pool.index)
    if s.boolean() or len(names) < 5:
        return pool
    return s.subset(names, 2, 5)


_cache = {}


def _memo(fn, *args, **kw):
    key = (fn, repr(args), repr(kw))
    if key not in _cache:
        _cache[key] = fn(*args, **kw)
    return _cache[key]


def program(s, classes, actors, dict_ops, list_ops, max_steps=12, min_steps=1, objects=(1,), cfg=True, init_depth=3,
            value_depth=2, srcs=(0, 0, 0, 1, 2), missing=True, key_pool=None):
    """A case with a class, a configuration, initial content and steps."""
    cls_name = s.choice(classes)
    big = big_ok(cls_name)
    init = _memo(values.containers, init_depth, 3, key_pool, kind=kind_of(cls_name), big=big)
    value = _memo(values.values, value_depth, 2, key_pool, big=big)
    if key_pool is None and s.boolean():
        # Fewer keys, more collisions.
        key_pool = values.SIMPLE_KEYS[:3]
        init = _memo(values.containers, init_depth, 3, key_pool, kind=kind_of(cls_name), big=big)
        value = _memo(values.values, value_depth, 2, key_pool, big=big)
    return {
        "cls": cls_name,
        "cfg": config(s, cls_name) if cfg else {},
        "init": None if missing and s.one_in(5) else init(s),
        "n": s.choice(objects),
        "steps": s.list(ops.steps(actors, swarm(s, dict_ops), swarm(s, list_ops), value, key_pool, srcs),
                        min_steps, max_steps),
    }
