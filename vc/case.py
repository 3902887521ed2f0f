"""A case: a module of user classes, built from schema descriptors."""
from __future__ import annotations
import sys, types as pytypes

HEADER = """
import collections, dataclasses, datetime, decimal, enum, ipaddress, pathlib, typing, uuid
from dataclasses import dataclass
from typing import (Any, ClassVar, Dict, FrozenSet, Generic, List, Literal, Mapping, MutableMapping,
                    MutableSequence, MutableSet, NewType, Optional, Sequence, Set, Tuple, TypeVar, Union)
from plum import dispatch
from serde import *
from serde import serde, field, serialize, deserialize, coerce, strict, disabled, SerdeError
from serde import ExternalTagging, InternalTagging, AdjacentTagging, Untagged
from serde.se import to_dict, to_tuple, to_obj, asdict as serde_asdict, astuple as serde_astuple
from serde.de import from_dict, from_tuple, from_obj
T = TypeVar("T")
U = TypeVar("U")
"""


class Case:
    def __init__(self, id, *roots, header="", footer="", future=False):
        """roots: types or classes whose definitions the module needs."""
        self.id = id
        self.roots = roots
        self.header, self.footer, self.future = header, footer, future
        self.specs = {}
        self._mod = None
        self.error = None

    def source(self):
        from . import types as VT
        seen = {}
        body = late = ""
        for r in self.roots:
            for name, d in r.classes():
                if name in seen:
                    continue
                seen[name] = d
                if isinstance(d, VT.C):
                    self.specs[name] = d
                    body += d.source()
                    late += d.footer if d.late else ""
                else:
                    body += d
                body += "\n"
        first = "from __future__ import annotations\n" if self.future else ""
        return first + HEADER + self.header + body + late + self.footer

    def module(self):
        """Defines the classes (runs the package's decorators)."""
        if self._mod is None:
            name = "vccase_" + "".join(c if c.isalnum() else f"_{ord(c):x}_" for c in self.id)
            m = pytypes.ModuleType(name)
            sys.modules[name] = m
            src = self.source()
            fn = f"<{name}>"
            import linecache
            linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
            from . import instr
            code = instr.transform(src, fn) if instr.ACTIVE else compile(src, fn, "exec", dont_inherit=True)
            exec(code, m.__dict__)
            self._mod = m
        return self._mod
