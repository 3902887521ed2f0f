"""Specification functions shared by the contract harnesses. Instrumented like the code under
verification (their loops may range over unbounded collections)."""
from __future__ import annotations
import collections, datetime, decimal, enum
from . import types as VT


def build(h, spec, vals):
    """The instance of `spec` holding exactly `vals`."""
    o = object.__new__(h.cls(spec.name))
    for f in spec.all_fields():
        if f.name in vals:
            object.__setattr__(o, f.name, vals[f.name])
    return o


def restored(h, spec, v, present):
    """Documented result of decoding a document that holds the fields named in `present` (taken from
    the value v): other fields get their default, None when Optional, nothing when a default-less
    init=False field; `None` if the document is incomplete."""
    vals = {}
    for f in spec.all_fields():
        if not f.init or f.skip or f.skip_deserializing:
            if f.has_default():
                vals[f.name] = h.default_of(f)
        elif f.name in present:
            vals[f.name] = getattr(v, f.name)
        elif f.has_default():
            vals[f.name] = h.default_of(f)
        elif isinstance(f.t, VT.Opt):
            vals[f.name] = None
        else:
            return None
    return build(h, spec, vals)


def copy_plain(v):
    """A structural copy of a document."""
    if isinstance(v, dict):
        return {k: copy_plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy_plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple([copy_plain(x) for x in v])
    return v


def norm(v, fmt):
    """What the parser of a format gives back for a document v its writer accepts (contract of the
    format libraries); raises TypeError for what the writer rejects."""
    if isinstance(v, dict):
        if type(v) is not dict and fmt in ("yaml", "toml"):
            raise TypeError("cannot represent " + type(v).__name__)
        return {norm_key(k, fmt): norm(x, fmt) for k, x in v.items()}
    if isinstance(v, tuple):
        if fmt == "msgpack":
            return tuple([norm(x, fmt) for x in v])
        return [norm(x, fmt) for x in v]
    if isinstance(v, list):
        if fmt == "msgpack":
            return tuple([norm(x, fmt) for x in v])
        return [norm(x, fmt) for x in v]
    if v is None:
        if fmt == "toml":
            raise TypeError("None is not TOML serializable")
        return None
    if isinstance(v, bool) or isinstance(v, str) or isinstance(v, int) or isinstance(v, float):
        return scalar(v, fmt)
    if isinstance(v, bytes) and fmt == "msgpack":
        return v
    if VT.by_contract(v):
        return v
    raise TypeError("Object of type " + type(v).__name__ + " is not serializable as " + fmt)


def scalar(v, fmt):
    t = type(v)
    if t is bool or t is str or t is int or t is float:
        return v
    if fmt == "yaml":
        raise TypeError("cannot represent " + t.__name__)
    if isinstance(v, enum.Enum):
        raise TypeError("enum member in a document")
    if isinstance(v, str):
        return str(v)
    if isinstance(v, int):
        return int(v)
    return float(v)


def norm_key(k, fmt):
    if isinstance(k, str):
        return scalar(k, fmt)
    if fmt == "json":
        if k is None:
            return "null"
        if k is True:
            return "true"
        if k is False:
            return "false"
        if isinstance(k, int) or isinstance(k, float):
            return str(k)
        raise TypeError("keys must be str, int, float, bool or None")
    if fmt == "toml":
        raise TypeError("TOML keys are strings")
    if k is None or isinstance(k, bool) or isinstance(k, int) or isinstance(k, float):
        return k
    if fmt == "yaml" and isinstance(k, tuple):
        return tuple([norm_key(x, fmt) for x in k])
    raise TypeError("key of type " + type(k).__name__)


def plain(h, v, label, sets=True):
    """The document consists of dicts, lists, tuples, str, int, float, bool and None only."""
    if isinstance(v, dict):
        h.check(type(v) is dict, label + "/dict")
        for k, x in v.items():
            plain(h, k, label, sets)
            plain(h, x, label, sets)
        return
    if isinstance(v, list) or isinstance(v, tuple) or (not sets and isinstance(v, (set, frozenset))):
        for x in v:
            plain(h, x, label, sets)
        return
    if VT.by_contract(v):
        return
    ok = v is None or isinstance(v, bool) or isinstance(v, str) or isinstance(v, int) or isinstance(v, float)
    h.check(ok and not isinstance(v, enum.Enum), label, detail=f"{type(v).__name__} in the document")


def convert(name, v):
    """The declared primitive type called on a value."""
    if name == "int":
        return int(v)
    if name == "str":
        return str(v)
    if name == "float":
        return float(v)
    return bool(v)


def each(h, fn, t, v):
    return [fn(h, t, x) for x in v]


def each_value(h, fn, t, v):
    return {k: fn(h, t, x) for k, x in v.items()}


def merged(a, b):
    r = {}
    for k, v in a.items():
        r[k] = v
    for k, v in b.items():
        r[k] = v
    return r


def all_within(h, vs, label):
    for e in vs:
        if isinstance(e, list):
            all_within(h, e, label)
        else:
            h.check(e.p <= 10, label)


def value_of(e):
    while isinstance(e, enum.Enum):
        e = e.value
    return e


def as_lists(v):
    return [as_lists(x) for x in v] if isinstance(v, tuple) else v


def member_for(members, v):
    """The member a document value stands for, by the documentation: its value, in the form the data
    formats give it."""
    for e in members:
        w = value_of(e)
        if type(w) is tuple:
            if type(v) in (list, tuple) and as_lists(tuple(v)) == as_lists(w):
                return e
        elif type(v) in (list, tuple):
            continue
        elif v == w:
            return e
    if type(v) is str:
        for e in members:
            w = value_of(e)
            if type(w) is int and str(w) == v:
                return e
    return None
