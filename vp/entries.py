"""The entry points through which data gets into a collection."""

DICT_SINGLE = ["setitem", "setdefault", "attr"]
DICT_MULTI = ["update", "update_pairs", "update_tuple", "update_iter", "update_kw", "update_both", "reset"]
LIST_SINGLE = ["setitem", "setitem_neg", "append", "insert", "insert_end"]
LIST_MULTI = ["setslice", "setslice_all", "setslice_step", "extend", "extend_tuple", "extend_gen", "iadd", "iadd_gen", "reset"]
DICT = DICT_SINGLE + DICT_MULTI
LIST = LIST_SINGLE + LIST_MULTI
SINGLE = set(DICT_SINGLE + LIST_SINGLE)
# The value itself is the argument.
DICT_WHOLE = ["update_whole", "pairs_whole", "kw_whole", "reset_whole"]
LIST_WHOLE = ["extend_whole", "iadd_whole", "slice_whole", "reset_whole"]


def enter_dict(c, name, key, value):
    """Store value under key; return the path of the value."""
    if name == "setitem":
        c[key] = value
    elif name == "setdefault":
        c.setdefault(key, value)
    elif name == "attr":
        setattr(c, key, value)
    elif name == "update":
        c.update({key: value})
    elif name == "update_pairs":
        c.update([(key, value)])
    elif name == "update_tuple":
        c.update(((key, value),))
    elif name == "update_iter":
        c.update(iter([[key, value]]))
    elif name == "update_kw":
        c.update(**{key: value})
    elif name == "update_both":
        c.update({"first": 0}, **{key: value})
    elif name == "reset":
        c.reset({key: value})
    elif name == "update_whole":
        c.update(value)
        return []
    elif name == "pairs_whole":
        c.update(list(value.items()))
        return []
    elif name == "kw_whole":
        c.update(**value)
        return []
    elif name == "reset_whole":
        c.reset(value)
        return []
    else:
        raise AssertionError(name)
    return [key]


def enter_list(c, name, index, value):
    """Store value; return its path. c must have at least one element."""
    if name == "setitem":
        c[index] = value
        return [index]
    if name == "setitem_neg":
        c[-1] = value
        return [-1]
    if name == "append":
        c.append(value)
        return [-1]
    if name == "insert":
        c.insert(index, value)
        return [index]
    if name == "insert_end":
        c.insert(10**6, value)
        return [-1]
    if name == "setslice":
        c[index:index + 1] = [value]
        return [index]
    if name == "setslice_all":
        c[:] = [0, value]
        return [1]
    if name == "setslice_step":
        n = len(c)
        c[::-1] = [value] + [0] * (n - 1)
        return [-1]
    if name == "extend":
        c.extend([0, value])
        return [-1]
    if name == "extend_tuple":
        c.extend((value, 0))
        return [-2]
    if name == "extend_gen":
        c.extend(v for v in [value])
        return [-1]
    if name == "iadd":
        c += [value, 0]
        return [-2]
    if name == "iadd_gen":
        c += (v for v in [value])
        return [-1]
    if name == "reset":
        c.reset([0, value])
        return [1]
    if name == "extend_whole":
        n = len(c)
        c.extend(value)
        return slice(n, None)
    if name == "iadd_whole":
        n = len(c)
        c += value
        return slice(n, None)
    if name == "slice_whole":
        c[:] = value
        return []
    if name == "reset_whole":
        c.reset(value)
        return []
    raise AssertionError(name)


def model_dict(m, name, key, value):
    """The effect of enter_dict on a plain dict."""
    if name in ("setdefault",):
        m.setdefault(key, value)
    elif name in ("reset", "reset_whole"):
        m.clear()
        m.update({key: value} if name == "reset" else value)
    elif name in ("update_whole", "pairs_whole", "kw_whole"):
        m.update(value)
    else:
        if name == "update_both":
            m["first"] = 0
        m[key] = value


def model_list(m, name, index, value):
    if name in ("reset", "setslice_all"):
        m[:] = [0, value]
    elif name == "reset_whole":
        m[:] = value
    else:
        enter_list(m, name, index, value)


def names(kind, attr=False):
    if kind == "dict":
        return [n for n in DICT if attr or n != "attr"]
    return list(LIST)
