"""Contracts of the format libraries (json, msgpack, PyYAML, tomli-w/tomllib, pickle), used in place
of the libraries when documents are symbolic: `loads(dumps(v)) == norm(v)` for every document v the
writer accepts. The concrete runs use the real libraries."""
from __future__ import annotations
import json, pickle, tomllib
import msgpack, tomli_w, yaml
from . import models
from .engine import Unsupported, deep_symbolic


class Text:
    """The output of a writer."""

    def __init__(self, fmt, value, opts):
        self.fmt, self.value, self.opts = fmt, value, opts

    def __eq__(self, o):
        raise Unsupported("comparison of encoded text")

    __hash__ = object.__hash__

    def __getattr__(self, n):
        raise Unsupported(f"operation {n} on the output of a format library")


class Ext:
    def __init__(self, code, data):
        self.code, self.data = code, data


def writer(fmt, name, real):
    def dumps(v, *a, **k):
        if not deep_symbolic(v) and type(v) is not Ext:
            return real(v, *a, **k)
        models.used(f"format library contract: {name}")
        if a:
            raise Unsupported("positional options")
        from . import spec
        k = {o: x for o, x in k.items() if o != "default"}
        if type(v) is Ext:
            return Text(fmt, v, k)
        if fmt == "pickle":
            return Text(fmt, spec.copy_plain(v), k)
        return Text(fmt, spec.norm(v, fmt), k)
    return dumps


def reader(fmt, name, real):
    def loads(t, *a, **k):
        if type(t) is not Text:
            return real(t, *a, **k)
        models.used(f"format library contract: {name}")
        if t.fmt != fmt:
            raise Unsupported("text of another format")
        if type(t.value) is Ext:
            return t.value
        from . import spec
        if fmt == "msgpack":
            if k.get("raw") or k.get("use_list"):
                raise Unsupported("msgpack reader options")
        return spec.copy_plain(t.value)
    return loads


def m_ext(code, data):
    if type(data) is Text:
        return Ext(code, data)
    return msgpack.ExtType(code, data)


def star(f):
    return lambda args, kwargs: f(*args, **kwargs)


def install():
    class X:
        def __setitem__(self, real, f):
            models.EXTRA[real] = star(f)
    X = X()
    X[json.dumps] = writer("json", "json.dumps/json.loads", json.dumps)
    X[json.loads] = reader("json", "json.dumps/json.loads", json.loads)
    X[msgpack.packb] = writer("msgpack", "msgpack.packb/unpackb", msgpack.packb)
    X[msgpack.unpackb] = reader("msgpack", "msgpack.packb/unpackb", msgpack.unpackb)
    X[msgpack.ExtType] = m_ext
    X[yaml.safe_dump] = writer("yaml", "yaml.safe_dump/safe_load", yaml.safe_dump)
    X[yaml.safe_load] = reader("yaml", "yaml.safe_dump/safe_load", yaml.safe_load)
    X[tomli_w.dumps] = writer("toml", "tomli_w.dumps/tomllib.loads", tomli_w.dumps)
    X[tomllib.loads] = reader("toml", "tomli_w.dumps/tomllib.loads", tomllib.loads)
    X[pickle.dumps] = writer("pickle", "pickle.dumps/loads", pickle.dumps)
    X[pickle.loads] = reader("pickle", "pickle.dumps/loads", pickle.loads)
