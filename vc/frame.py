"""Frame conditions: the state of the package and of the classes it has decorated."""
from __future__ import annotations
import sys, types

MODS = ("serde", "serde.core", "serde.se", "serde.de", "serde.compat", "serde.json", "serde.msgpack", "serde.yaml",
        "serde.toml", "serde.pickle", "serde.numpy", "serde.inspect")


def fresh():
    """The package's caches as in a new process."""
    for n in MODS:
        m = sys.modules.get(n)
        for v in list(vars(m).values()) if m else ():
            c = getattr(v, "cache_clear", None)
            if c is not None and hasattr(v, "cache_info"):
                c()
    sys.modules["serde.core"].CACHE.classes.clear()


def content(v):
    t = type(v)
    if t in (list, tuple):
        return (t, [(id(x), x) for x in v])
    if t is dict:
        return (t, [(k, id(x), x) for k, x in v.items()])
    if t in (set, frozenset):
        return (t, sorted(map(repr, v)))
    return None


def put(out, path, v, made=False):
    """`made`: the container was made up here, only its content counts."""
    out[path] = (None if made else id(v), v, content(v))


def state(*classes):
    """Every attribute of the package's modules and of the given classes, by identity, with the content
    of containers; the values are kept alive so that identities stay meaningful."""
    out = {}
    core = sys.modules["serde.core"]
    for n in MODS:
        m = sys.modules.get(n)
        if m is None:
            continue
        for k, v in vars(m).items():
            if k.startswith("__") and k != "__dict__":
                continue
            put(out, (n, k), v)
            if isinstance(v, types.FunctionType):
                put(out, (n, k, "defaults"), v.__defaults__)
                put(out, (n, k, "kwdefaults"), v.__kwdefaults__)
                put(out, (n, k, "dict"), v.__dict__)
            elif isinstance(v, type) and v.__module__ == n:
                put(out, (n, k, "class"), {a: b for a, b in vars(v).items() if a not in ("__dict__", "__weakref__")}, True)
    for c in classes:
        put(out, (c, "class"), {a: b for a, b in vars(c).items() if a not in ("__dict__", "__weakref__")}, True)
        for f in getattr(c, "__dataclass_fields__", {}).values():
            put(out, (c, "field", f.name), {s: getattr(f, s) for s in f.__slots__ if hasattr(f, s)}, True)
        sc = getattr(c, "__serde__", None)
        if sc is not None:
            for a in dir(sc):
                if a.startswith("__"):
                    continue
                v = getattr(sc, a)
                if isinstance(v, types.MethodType):
                    continue
                put(out, (c, "scope", a), v)
                if a == "funcs":
                    for n, f in v.items():
                        put(out, (c, "func", n, "globals"), getattr(f, "__globals__", None))
                        put(out, (c, "func", n, "defaults"), getattr(f, "__defaults__", None))
    return out


def differences(a, b):
    r = []
    for k in a.keys() | b.keys():
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            r.append(k)
            continue
        if x[0] != y[0] or not same_content(x[2], y[2]):
            if not immutable(x[1], y[1]):
                r.append(k)
    return sorted(map(str, r))


def immutable(x, y):
    """Properties computed anew (equal constants)."""
    return type(x) is type(y) and type(x) in (str, int, bool, float, bytes, type(None)) and x == y


def same_content(x, y):
    if x is None or y is None:
        return x is y
    if x[0] is not y[0] or len(x[1]) != len(y[1]):
        return False
    if x[0] in (list, tuple):
        return all(p[0] == q[0] or immutable(p[1], q[1]) for p, q in zip(x[1], y[1]))
    if x[0] is dict:
        return all((p[0] is q[0] or p[0] == q[0]) and (p[1] == q[1] or immutable(p[2], q[2])) for p, q in zip(x[1], y[1]))
    return x[1] == y[1]


def elements(v):
    """Elements of a collection (the arbitrary element of a symbolic segment stands for all of it)."""
    from .engine import Seg, GKey
    out = []
    for k in list(v.values()) if isinstance(v, dict) else list(v):
        t = type(k)
        out.append(k.elem if t is Seg else k)
    return out
