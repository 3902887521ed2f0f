"""Schema descriptors: each one emits Python source for an annotation, builds an arbitrary conforming
value (symbolic or concrete, through the environment `h`), and defines the *specification* of its
encoding, written from the documentation and independent of the code under verification.

Function bodies of this module are instrumented like the code under verification, so that the
specification's own loops range over unbounded collections."""
from __future__ import annotations
import collections, copy, datetime, decimal, enum, ipaddress, pathlib, uuid


class Opts:
    """Options of one serialization call, after defaults are resolved."""

    def __init__(self, named=True, reuse=False, sets=False, skip_none=False, dyn=False):
        self.named, self.reuse, self.sets, self.skip_none = named, reuse, sets, skip_none
        self.dyn = dyn      # the member's type is only known from its value: sets are written as lists

    def __repr__(self):
        return f"named={self.named} reuse={self.reuse} sets={self.sets} skip_none={self.skip_none}"


class T:
    hashable = True      # values can be set elements / dict keys
    plain = True         # encoding uses only str/int/float/bool/None/list/tuple/dict(/set)
    key_ok = False       # usable as JSON-like object key and restored from its text
    depth = 0

    def src(self):
        raise NotImplementedError

    def gen(self, h):
        raise NotImplementedError

    def enc(self, h, v, o):
        return v

    def classes(self):
        """ClassSpecs and extra source definitions this type depends on, dependencies first."""
        return []

    def __repr__(self):
        return self.src()


class Int(T):
    key_ok = True
    def src(self): return "int"
    def gen(self, h): return h.int_()


class Str(T):
    key_ok = True
    def src(self): return "str"
    def gen(self, h): return h.str_()


class Float(T):
    key_ok = True
    def src(self): return "float"
    def gen(self, h): return h.float_()


class Bool(T):
    def src(self): return "bool"
    def gen(self, h): return h.choose(2) == 1


class NoneT(T):
    def src(self): return "None"
    def gen(self, h): return None
    def enc(self, h, v, o): return None


class AnyT(T):
    """Any, holding plain scalars (documented: passed through)."""
    hashable = False
    def src(self): return "Any"
    def gen(self, h):
        k = h.choose(4)
        if k == 0:
            return h.int_()
        if k == 1:
            return h.str_()
        if k == 2:
            return None
        return h.float_()


class Held(T):
    """Any, holding a value of some type: written by the value's own class, without instance reuse."""

    def __init__(self, t):
        self.t = t
        self.hashable = t.hashable

    def src(self): return "Any"
    def classes(self): return self.t.classes()
    def gen(self, h): return self.t.gen(h)
    def enc(self, h, v, o): return self.t.enc(h, v, Opts(True, False, o.sets, o.skip_none, True))


class StrSer(T):
    """Types serialized through str(x) and rebuilt with cls(text)."""
    key_ok = True

    def __init__(self, cls, text, inst=None):
        self.cls, self.text, self.inst = cls, text, inst or cls

    def src(self): return self.text
    def gen(self, h): return h.obj(self.inst)
    def enc(self, h, v, o): return v if o.reuse else str(v)


UUID = StrSer(uuid.UUID, "uuid.UUID")
PATH = StrSer(pathlib.Path, "pathlib.Path", pathlib.PosixPath)
PUREPATH = StrSer(pathlib.PurePosixPath, "pathlib.PurePosixPath")
DECIMAL = StrSer(decimal.Decimal, "decimal.Decimal")
IPV4 = StrSer(ipaddress.IPv4Address, "ipaddress.IPv4Address")
IPV6 = StrSer(ipaddress.IPv6Address, "ipaddress.IPv6Address")
NET4 = StrSer(ipaddress.IPv4Network, "ipaddress.IPv4Network")
NET6 = StrSer(ipaddress.IPv6Network, "ipaddress.IPv6Network")
IF4 = StrSer(ipaddress.IPv4Interface, "ipaddress.IPv4Interface")
IF6 = StrSer(ipaddress.IPv6Interface, "ipaddress.IPv6Interface")
WINPATH = StrSer(pathlib.PureWindowsPath, "pathlib.PureWindowsPath")


class Dt(T):
    key_ok = True

    def __init__(self, cls, text):
        self.cls, self.text = cls, text

    def src(self): return self.text
    def gen(self, h): return h.obj(self.cls)
    def enc(self, h, v, o): return v if o.reuse else v.isoformat()


DATETIME = Dt(datetime.datetime, "datetime.datetime")
DATE = Dt(datetime.date, "datetime.date")
TIME = Dt(datetime.time, "datetime.time")


class EnumT(T):
    def __init__(self, name, base="enum.Enum", members=(("X", "'x'"), ("Y", "'y'"))):
        self.name, self.base, self.members = name, base, members
        self.key_ok = True

    def src(self): return self.name
    def gen(self, h):
        cls = h.cls(self.name)
        return list(cls.__members__.values())[h.choose(len(self.members))]

    def enc(self, h, v, o):
        r = v.value
        while isinstance(r, enum.Enum):
            r = r.value
        return r

    def classes(self):
        return [(self.name, f"class {self.name}({self.base}):\n"
                 + "".join(f"    {n} = {s}\n" for n, s in self.members))]


E_STR = EnumT("EStr")
E_INT = EnumT("EInt", "enum.IntEnum", (("P", "1"), ("Q", "2")))
E_MIX = EnumT("EMix", "enum.Enum", (("A", "1"), ("B", "'b'"), ("C", "2.5")))
E_MIX.key_ok = False
E_STRENUM = EnumT("EStrEnum", "str, enum.Enum", (("U", "'u'"), ("W", "'w'")))
E_FLAG = EnumT("EFlag", "enum.IntFlag", (("R", "1"), ("S", "2"), ("T", "4")))


class NestedEnumT(EnumT):
    def __init__(self):
        super().__init__("ENest", "enum.Enum", (("V", "EStr.X"), ("Z", "'zz'")))
        self.key_ok = False

    def classes(self):
        return E_STR.classes() + super().classes()


class Lit(T):
    key_ok = False

    def __init__(self, *vals):
        self.vals = vals

    def src(self): return "Literal[" + ", ".join(repr(v) for v in self.vals) + "]"
    def gen(self, h): return self.vals[h.choose(len(self.vals))]


class NewT(T):
    """typing.NewType of a primitive."""

    def __init__(self, name, base):
        self.name, self.base = name, base
        self.key_ok = False

    def src(self): return self.name
    def gen(self, h): return self.base.gen(h)
    def classes(self): return [(self.name, f"{self.name} = NewType({self.name!r}, {self.base.src()})\n")]


class PrimSub(T):
    """User subclass of a primitive."""

    def __init__(self, name, base):
        self.name, self.base = name, base

    def src(self): return self.name

    def gen(self, h):
        c = h.cls(self.name)
        b = self.base.src()
        return h.int_(c) if b == "int" else h.str_(c) if b == "str" else h.float_(c)

    def classes(self): return [(self.name, f"class {self.name}({self.base.src()}):\n    pass\n")]


class Alias695(T):
    def __init__(self, name, t):
        self.name, self.t = name, t
        self.hashable = t.hashable
        self.plain = t.plain

    def src(self): return self.name
    def gen(self, h): return self.t.gen(h)
    def enc(self, h, v, o): return self.t.enc(h, v, o)
    def classes(self): return self.t.classes() + [(self.name, f"type {self.name} = {self.t.src()}\n")]


class Wrap(T):
    """Base of one-argument constructors."""
    head = ""

    def __init__(self, t):
        self.t = t
        self.depth = t.depth + 1

    def src(self): return f"{self.head}[{self.t.src()}]"
    def classes(self): return self.t.classes()


class Opt(Wrap):
    head = "Optional"

    def __init__(self, t):
        super().__init__(t)
        self.hashable = t.hashable

    def gen(self, h):
        return None if h.choose(2) == 0 else self.t.gen(h)

    def enc(self, h, v, o):
        if v is None:
            return None
        return self.t.enc(h, v, o)


class OptPipe(Opt):
    def src(self): return f"{self.t.src()} | None"


class ListT(Wrap):
    head = "list"
    hashable = False
    ctor = list

    def gen(self, h): return h.list_(self.ctor, lambda: self.t.gen(h))
    def enc(self, h, v, o): return [self.t.enc(h, e, o) for e in v]


class TypingListT(ListT):
    head = "List"


class SeqT(ListT):
    head = "Sequence"


class MutSeqT(ListT):
    head = "MutableSequence"


class DequeT(ListT):
    head = "collections.deque"
    ctor = collections.deque


class VarTuple(ListT):
    head = "tuple"
    ctor = tuple

    def __init__(self, t):
        super().__init__(t)
        self.hashable = t.hashable

    def src(self): return f"tuple[{self.t.src()}, ...]"
    def enc(self, h, v, o): return tuple([self.t.enc(h, e, o) for e in v])


class SetT(Wrap):
    head = "set"
    hashable = False
    ctor = set

    def gen(self, h): return h.set_(self.ctor, lambda: self.t.gen(h))

    def enc(self, h, v, o):
        if o.sets or o.dyn:
            return [self.t.enc(h, e, o) for e in v]
        return {self.t.enc(h, e, o) for e in v}


class FrozenSetT(SetT):
    head = "frozenset"
    ctor = frozenset
    hashable = True


class TypingSetT(SetT):
    head = "Set"


class TupleT(T):
    def __init__(self, *ts):
        self.ts = ts
        self.depth = 1 + max(t.depth for t in ts)
        self.hashable = all(t.hashable for t in ts)

    def src(self): return "tuple[" + ", ".join(t.src() for t in self.ts) + "]"

    def gen(self, h):
        r = []
        for t in self.ts:
            r.append(t.gen(h))
        return tuple(r)

    def enc(self, h, v, o):
        r = []
        i = 0
        for t in self.ts:
            r.append(t.enc(h, v[i], o))
            i = i + 1
        return tuple(r)

    def classes(self): return [c for t in self.ts for c in t.classes()]


class DictT(T):
    hashable = False
    head = "dict"
    ctor = dict

    def __init__(self, k, v):
        self.k, self.v = k, v
        self.depth = 1 + max(k.depth, v.depth)

    def src(self): return f"{self.head}[{self.k.src()}, {self.v.src()}]"
    def classes(self): return self.k.classes() + self.v.classes()
    def gen(self, h): return h.map_(self.make, lambda: self.k.gen(h), lambda: self.v.gen(h))
    def make(self): return self.ctor()
    def enc(self, h, v, o): return {self.k.enc(h, k, o): self.v.enc(h, x, o) for k, x in v.items()}


class MappingT(DictT):
    head = "Mapping"


class MutMappingT(DictT):
    head = "MutableMapping"


class TypingDictT(DictT):
    head = "Dict"


class DefaultDictT(DictT):
    head = "collections.defaultdict"

    def __init__(self, k, v, factory):
        super().__init__(k, v)
        self.factory = factory          # python callable, or class name in the case

    def gen(self, h):
        f = self.factory if callable(self.factory) else h.cls(self.factory)
        return h.map_(lambda: collections.defaultdict(f), lambda: self.k.gen(h), lambda: self.v.gen(h))


class CounterT(Wrap):
    head = "collections.Counter"
    hashable = False

    def gen(self, h): return h.map_(collections.Counter, lambda: self.t.gen(h), lambda: h.int_())
    def enc(self, h, v, o): return {self.t.enc(h, k, o): x for k, x in v.items()}


class Bare(T):
    """Unparameterized collections: contents pass through unchanged."""
    hashable = False

    def __init__(self, head, elem=None):
        self.head = head
        self.elem = elem or Int()

    def src(self): return self.head

    def gen(self, h):
        k = self.head.split(".")[-1]
        if k in ("list", "List", "Sequence"):
            return h.list_(list, lambda: self.elem.gen(h))
        if k in ("set", "Set"):
            return h.set_(set, lambda: self.elem.gen(h))
        if k == "frozenset":
            return h.set_(frozenset, lambda: self.elem.gen(h))
        if k in ("tuple", "Tuple"):
            return h.list_(tuple, lambda: self.elem.gen(h))
        if k == "deque":
            return h.list_(collections.deque, lambda: self.elem.gen(h))
        if k == "Counter":
            return h.map_(collections.Counter, lambda: h.str_(), lambda: h.int_())
        return h.map_(dict, lambda: h.str_(), lambda: self.elem.gen(h))

    def enc(self, h, v, o):
        k = self.head.split(".")[-1]
        if k == "deque":
            return list(v)
        if k in ("set", "Set", "frozenset"):
            return list(v) if o.sets or o.dyn else v
        if k == "Counter":
            return {q: x for q, x in v.items()}
        return v


class UnionT(T):
    """Union of arms that are pairwise distinguishable by class. `tagging`: kind, tag, content."""

    def __init__(self, *ts, pipe=False):
        self.ts = ts
        self.pipe = pipe
        self.depth = 1 + max(t.depth for t in ts)
        self.hashable = all(t.hashable for t in ts)

    def src(self):
        if self.pipe:
            return " | ".join(t.src() for t in self.ts)
        return "Union[" + ", ".join(t.src() for t in self.ts) + "]"

    def classes(self): return [c for t in self.ts for c in t.classes()]

    def gen(self, h):
        k = h.choose(len(self.ts))
        v = self.ts[k].gen(h)
        h.arm[id(v)] = (v, k)
        return v

    def arm_of(self, h, v):
        e = h.arm.get(id(v))
        if e is not None and e[0] is v:
            return e[1]
        for i, t in enumerate(self.ts):
            if h.inhabits(v, t):
                return i
        raise AssertionError("value outside the union")

    def enc(self, h, v, o):
        k = self.arm_of(h, v)
        t = self.ts[k]
        if o.dyn:
            return t.enc(h, v, o)
        # documented: members of a union are encoded as dicts, whatever the outer format
        e = t.enc(h, v, Opts(True, o.reuse, o.sets, o.skip_none))
        if isinstance(t, Data):
            return h.tag(e, t.spec.name)
        if isinstance(t, (Opaque, SelfRef)):
            return h.tag(e, t.name)
        return e


class Data(T):
    """A dataclass."""

    def __init__(self, spec):
        self.spec = spec
        self.hashable = spec.frozen
        self.depth = 1

    def src(self): return self.spec.name
    def classes(self): return self.spec.classes()

    def gen(self, h):
        return self.spec.gen(h)

    def enc(self, h, v, o):
        return self.spec.enc(h, v, Opts(o.named, o.reuse, o.sets, o.skip_none))


class Opaque(T):
    """An arbitrary class known only through the contract of its generated functions: its encoding is
    some mapping, and decoding that encoding gives the value back. Stands for *any* nested class, so a
    case proved with it composes with every class that satisfies the contract."""
    hashable = True

    def __init__(self, name="Kid"):
        self.name = name

    def src(self): return self.name

    def classes(self):
        return [(self.name, f"@serde\n@dataclasses.dataclass(frozen=True)\nclass {self.name}:\n    k: int\n")]

    def gen(self, h): return h.opaque(self.name)
    def enc(self, h, v, o): return h.opaque_enc(self.name, v, o)


class SelfRef(T):
    """Reference, by name, to a class of the same module (recursion, forward references). In the
    symbolic runs the referenced object is arbitrary and its generated functions are replaced by their
    contract: proving the class under this hypothesis is the induction step over the depth of values."""
    hashable = False

    def __init__(self, name, quoted=True):
        self.name, self.quoted = name, quoted

    def src(self): return repr(self.name) if self.quoted else self.name
    def gen(self, h): return h.reference(self.name)
    def enc(self, h, v, o): return h.reference_enc(self.name, v, o)


class F:
    """A field of a dataclass."""

    def __init__(self, name, t, **kw):
        self.name, self.t = name, t
        self.rename = kw.pop("rename", None)
        self.alias = kw.pop("alias", [])
        self.skip = kw.pop("skip", False)
        self.skip_serializing = kw.pop("skip_serializing", False)
        self.skip_deserializing = kw.pop("skip_deserializing", False)
        self.skip_if = kw.pop("skip_if", None)              # (source, python predicate)
        self.skip_if_false = kw.pop("skip_if_false", None)
        self.skip_if_none = kw.pop("skip_if_none", None)
        self.skip_if_default = kw.pop("skip_if_default", None)
        self.default = kw.pop("default", None)              # source text
        self.factory = kw.pop("factory", None)              # source text
        self.init = kw.pop("init", True)
        self.kw_only = kw.pop("kw_only", False)
        self.flatten = kw.pop("flatten", False)
        self.serializer = kw.pop("serializer", None)        # (source, spec function)
        self.deserializer = kw.pop("deserializer", None)    # (source, spec function)
        self.plain_field = kw.pop("plain_field", False)     # use dataclasses.field
        self.meta = kw.pop("meta", False)                   # options through dataclasses metadata
        self.fixed = kw.pop("fixed", None)                  # gen: always this source value
        assert not kw, kw

    def has_default(self):
        return self.default is not None or self.factory is not None

    def src(self):
        kw = []
        if self.default is not None:
            kw.append(f"default={self.default}")
        if self.factory is not None:
            kw.append(f"default_factory={self.factory}")
        if not self.init:
            kw.append("init=False")
        if self.kw_only:
            kw.append("kw_only=True")
        serde = []
        if self.rename is not None:
            serde.append(f"rename={self.rename!r}")
        if self.alias:
            serde.append(f"alias={self.alias!r}")
        for n in ("skip", "skip_serializing", "skip_deserializing", "flatten"):
            if getattr(self, n):
                serde.append(f"{n}=True")
        for n in ("skip_if_false", "skip_if_none", "skip_if_default"):
            if getattr(self, n) is not None:
                serde.append(f"{n}={getattr(self, n)}")
        if self.skip_if:
            serde.append(f"skip_if={self.skip_if[0]}")
        if self.serializer:
            serde.append(f"serializer={self.serializer[0]}")
        if self.deserializer:
            serde.append(f"deserializer={self.deserializer[0]}")
        ann = f"    {self.name}: {self.t.src()}"
        if self.meta:
            kw.append("metadata={" + ", ".join(repr("serde_" + s.split("=", 1)[0]) + ": " + s.split("=", 1)[1]
                                               for s in serde) + "}")
            return f"{ann} = dataclasses.field({', '.join(kw)})\n"
        if not serde and self.default is not None and len(kw) == 1:
            return f"{ann} = {self.default}\n"
        if not serde and not kw:
            return ann + "\n"
        if not serde and self.plain_field:
            return f"{ann} = dataclasses.field({', '.join(kw)})\n"
        return f"{ann} = field({', '.join(kw + serde)})\n"


CASES = {
    "camelcase": lambda s: _camel(s),
    "pascalcase": lambda s: _pascal(s),
    "snakecase": lambda s: s,
    "kebabcase": lambda s: s.replace("_", "-"),
    "constcase": lambda s: s.upper(),
    "upperkebabcase": lambda s: s.upper().replace("_", "-"),
    "lowercase": lambda s: s.lower(),
    "uppercase": lambda s: s.upper(),
    "capitalcase": lambda s: s[:1].upper() + s[1:],
    "sentencecase": lambda s: s[:1].upper() + s[1:].replace("_", " "),
    "titlecase": lambda s: " ".join([w[:1].upper() + w[1:] for w in s.split("_")]),
    "alphanumcase": lambda s: s.replace("_", ""),
}


def text_of(v):
    return str(v)


def none_if_empty(v):
    return v if v else None


def empty_if_none(v):
    return "" if v is None else v


def boxed(v):
    return [v]


def _pascal(s):
    return "".join([w[:1].upper() + w[1:] for w in s.split("_")])


def _camel(s):
    p = _pascal(s)
    return p[:1].lower() + p[1:]


class C:
    """A dataclass definition. opts: decorator keyword arguments as source text."""

    def __init__(self, name, fields, rename_all=None, deny=False, transparent=False, tagging=None,
                 type_check=None, reuse=None, sets=None, skip_if_none=False, skip_if_default=False,
                 deco="serde", frozen=False, bases=(), typevars=(), extra_opts="", prelude=(), body="",
                 kw_only=False, eq=True, slots=False, hash=False, pep695=False, late=False, classvars=(), class_var=False):
        self.name, self.fields = name, fields
        self.classvars, self.class_var = [F(n, t) for n, t in classvars], class_var
        self.rename_all, self.deny, self.transparent, self.tagging = rename_all, deny, transparent, tagging
        self.type_check, self.reuse, self.sets = type_check, reuse, sets
        self.skip_if_none, self.skip_if_default = skip_if_none, skip_if_default
        self.deco, self.frozen, self.bases, self.typevars = deco, frozen, bases, typevars
        self.extra_opts, self.prelude, self.body = extra_opts, list(prelude), body
        self.kw_only, self.slots = kw_only, slots
        self.pep695, self.late = pep695, late

    def t(self):
        return Data(self)

    def all_fields(self):
        out = []
        for b in reversed(self.bases):      # dataclasses collect fields in reverse method resolution order
            if isinstance(b, str):
                continue
            for f in b.all_fields():
                if isinstance(b, Gen):
                    f = copy.copy(f)
                    f.t = Arg(f.t, b.spec.typevars, b.args)
                idx = [i for i, g in enumerate(out) if g.name == f.name]
                if idx:
                    out[idx[0]] = f
                else:
                    out.append(f)
        for f in self.fields:
            idx = [i for i, g in enumerate(out) if g.name == f.name]
            if idx:
                out[idx[0]] = f
            else:
                out.append(f)
        return out

    def classes(self):
        out = []
        for b in self.bases:
            if not isinstance(b, str):
                out.extend(b.classes())
        for f in self.fields + self.classvars:
            out.extend(f.t.classes())
        for p in self.prelude:
            out.append(p)
        out.append((self.name, self))
        return out

    def source(self):
        opts = []
        if self.rename_all:
            opts.append(f"rename_all={self.rename_all!r}")
        if self.deny:
            opts.append("deny_unknown_fields=True")
        if self.transparent:
            opts.append("transparent=True")
        if self.tagging:
            opts.append(f"tagging={self.tagging}")
        if self.type_check:
            opts.append(f"type_check={self.type_check}")
        if self.reuse is not None:
            opts.append(f"reuse_instances_default={self.reuse}")
        if self.sets is not None:
            opts.append(f"convert_sets_default={self.sets}")
        if self.skip_if_none:
            opts.append("skip_if_none=True")
        if self.skip_if_default:
            opts.append("skip_if_default=True")
        if self.class_var:
            opts.append("serialize_class_var=True")
        if self.extra_opts:
            opts.append(self.extra_opts)
        s = ""
        if self.late:
            # decorated after every class of the module is defined
            self.footer = f"serde({', '.join([self.name, *opts])})\n"
            s += "@dataclasses.dataclass\n"
        elif self.deco == "serde":
            s += f"@serde({', '.join(opts)})\n" if opts else "@serde\n"
        elif self.deco == "pair":
            s += f"@deserialize({', '.join(opts)})\n@serialize({', '.join(o for o in opts if 'deny' not in o)})\n"
        elif self.deco == "pair2":
            s += f"@serialize({', '.join(o for o in opts if 'deny' not in o)})\n@deserialize({', '.join(opts)})\n"
        if self.late:
            pass
        elif self.frozen or self.kw_only or self.slots or self.deco in ("dataclass", "pair", "pair2") or self.bases:
            dc = [k for k, b in (("frozen=True", self.frozen), ("kw_only=True", self.kw_only), ("slots=True", self.slots)) if b]
            s += f"@dataclasses.dataclass({', '.join(dc)})\n"
        bases = [b if isinstance(b, str) else b.t().src() if isinstance(b, C) else b.src() for b in self.bases]
        if self.typevars and not self.pep695:
            bases.append(f"Generic[{', '.join(self.typevars)}]")
        tv = f"[{', '.join(self.typevars)}]" if self.pep695 else ""
        s += f"class {self.name}{tv}{'(' + ', '.join(bases) + ')' if bases else ''}:\n"
        for f in self.fields:
            s += f.src()
        for f in self.classvars:
            s += f"    {f.name}: typing.ClassVar[{f.t.src()}] = None\n"
        if self.body:
            s += self.body
        elif not self.fields:
            s += "    pass\n"
        return s

    # ---- values
    def gen(self, h):
        cls = h.cls(self.name)
        o = object.__new__(cls)
        for f in self.all_fields():
            if f.fixed is not None:
                v = h.evaluate(f.fixed)
            elif not f.init or f.skip or f.skip_deserializing:
                v = h.default_of(f)
            else:
                v = f.t.gen(h)
            object.__setattr__(o, f.name, v)
        for f in self.classvars:
            setattr(cls, f.name, f.t.gen(h))
        return o

    def written_classvars(self):
        out = []
        if self.class_var:
            for b in (*self.bases, self):
                if not isinstance(b, str):
                    out += [f for f in b.classvars if f.name not in [g.name for g in out]]
        return out

    def key(self, f):
        if f.rename is not None:
            return f.rename
        if self.rename_all:
            return CASES[self.rename_all](f.name)
        return f.name

    # ---- specification of the encoding
    def enc_field(self, h, f, v, o):
        if f.serializer:
            return f.serializer[1](h, v)
        return f.t.enc(h, v, o)

    def resolve(self, o, outer):
        """Options in force inside this class: an explicit call option wins; `None` means the
        class's own default."""
        return o

    def enc(self, h, v, o):
        outer = h.cur_class
        h.cur_class = self
        r = self.enc1(h, v, o)
        h.cur_class = outer
        return r

    def enc1(self, h, v, o):
        if self.transparent:
            for f in self.all_fields():
                if not (f.skip or f.skip_serializing or not f.init):
                    r = self.enc_field(h, f, getattr(v, f.name), o)
                    return r
        if not o.named:
            out = []
            for f in self.all_fields():
                if not (f.skip or f.skip_serializing):
                    out.append(self.enc_field(h, f, getattr(v, f.name), o))
            for f in self.written_classvars():
                out.append(f.t.enc(h, getattr(v, f.name), o))
            return tuple(out)
        res = {}
        extra = []
        for f in self.all_fields():
            if f.skip or f.skip_serializing:
                continue
            x = getattr(v, f.name)
            if f.flatten:
                if x is None:
                    continue
                ft = f.t.t if isinstance(f.t, Opt) else f.t
                sub = ft.enc(h, x, o)
                if isinstance(ft, Data):
                    for k in list(sub.keys()):
                        res[k] = sub[k]
                else:
                    extra.append(sub)
                continue
            e = self.enc_field(h, f, x, o)
            if self.omitted(h, f, x, e, o):
                continue
            res[self.key(f)] = e
        for f in self.written_classvars():
            e = f.t.enc(h, getattr(v, f.name), o)
            if not (o.skip_none and e is None):
                res[self.key(f)] = e
        for sub in extra:
            for k, x in sub.items():
                if k not in res:
                    res[k] = x
        return res

    def omitted(self, h, f, x, e, o):
        if o.skip_none and e is None:
            return True
        if f.skip_if:
            return f.skip_if[1](e)
        if f.skip_if_false:
            return not e
        n = f.skip_if_none if f.skip_if_none is not None else self.skip_if_none
        if n and e is None:
            return True
        d = f.skip_if_default if f.skip_if_default is not None else self.skip_if_default
        if d and f.has_default():
            return h.equal_values(x, h.default_of(f))
        return False

    # ---- a complete input document for the value: every deserialized field, under its primary name
    def wire(self, h, v, o):
        outer = h.cur_class
        h.cur_class = self
        r = {}
        if self.transparent:
            f = self.de_fields()[0]
            r = self.enc_field(h, f, getattr(v, f.name), o)
            h.cur_class = outer
            return r
        for f in self.de_fields():
            x = getattr(v, f.name)
            if f.flatten:
                if isinstance(f.t, Opt) and x is None:
                    continue
                t = f.t.t if isinstance(f.t, Opt) else f.t
                if isinstance(t, Data):
                    sub = t.spec.wire(h, x, o)
                    for k in list(sub.keys()):
                        r[k] = sub[k]
                else:
                    for k, y in x.items():
                        r[k] = y
            else:
                r[self.key(f)] = self.enc_field(h, f, x, o)
        h.cur_class = outer
        return r

    def de_fields(self):
        return [f for f in self.all_fields() if f.init and not f.skip and not f.skip_deserializing]


class Var(T):
    """Type variable; bound by the enclosing Gen."""
    hashable = True

    def __init__(self, name="T"):
        self.name = name

    def src(self): return self.name
    def gen(self, h): return h.bind[self.name].gen(h)

    def enc(self, h, v, o):
        # members of a variable type are serialized without instance reuse
        return h.bind[self.name].enc(h, v, Opts(o.named, False, o.sets, o.skip_none, True))


class Bound(T):
    """A type in the scope of other bindings of the type variables."""

    def __init__(self, t, bind):
        self.t, self.bind = t, bind
        self.hashable = t.hashable

    def src(self): return self.t.src()
    def classes(self): return self.t.classes()

    def gen(self, h):
        old = h.bind
        h.bind = self.bind
        r = self.t.gen(h)
        h.bind = old
        return r

    def enc(self, h, v, o):
        old = h.bind
        h.bind = self.bind
        r = self.t.enc(h, v, o)
        h.bind = old
        return r


class Arg(Bound):
    """A field type inherited from a parameterized base: its variables stand for the base's arguments."""

    def __init__(self, t, names, args):
        self.t, self.names, self.args = t, names, args
        self.hashable = t.hashable
        self.bind = None

    def gen(self, h):
        return Bound(self.t, self.scope(h)).gen(h)

    def enc(self, h, v, o):
        return Bound(self.t, self.scope(h)).enc(h, v, o)

    def scope(self, h):
        return bindings(h, self.names, self.args)


def bindings(h, names, args):
    new = {}
    for n, a in zip(names, args):
        if isinstance(a, Var):
            new[n] = h.bind[a.name]
        elif h.bind:
            new[n] = Bound(a, h.bind)
        else:
            new[n] = a
    return new


class Gen(T):
    """Parameterized generic dataclass, e.g. Foo[int]."""

    def __init__(self, spec, *args):
        self.spec, self.args = spec, args
        self.hashable = spec.frozen
        self.depth = 1
        self.name = spec.name

    def src(self): return self.spec.name + "[" + ", ".join(a.src() for a in self.args) + "]"
    def classes(self): return [c for a in self.args for c in a.classes()] + self.spec.classes()
    def all_fields(self): return self.spec.all_fields()

    def gen(self, h):
        old = h.bind
        h.bind = bindings(h, self.spec.typevars, self.args)
        r = self.spec.gen(h)
        h.bind = old
        return r

    def enc(self, h, v, o):
        old = h.bind
        h.bind = bindings(h, self.spec.typevars, self.args)
        r = self.spec.enc(h, v, Opts(o.named, o.reuse, o.sets, o.skip_none))
        h.bind = old
        return r


def by_contract(v):
    """Part of the (unknown, plain by contract) encoding of an opaque nested class."""
    return getattr(getattr(v, "pycls", None), "__name__", "") == "KidEnc"


class Wild(T):
    """Arbitrary plain data, nested up to `depth` levels (collections of any length)."""
    hashable = False

    def __init__(self, depth=1, kinds=None, keys=()):
        self.d = depth
        self.keys = tuple(keys)         # keys of documents the type under test may look up
        self.kinds = kinds or ("int", "str", "float", "bool", "none", "list", "dict")

    def src(self): return "Any"

    def gen(self, h):
        ks = [k for k in self.kinds if self.d > 0 or k not in ("list", "dict", "tuple", "idict")]
        k = ks[h.choose(len(ks))]
        if k == "int":
            return h.int_()
        if k == "str":
            return h.str_()
        if k == "float":
            return h.float_()
        if k == "bool":
            return h.choose(2) == 1
        if k == "none":
            return None
        sub = Wild(self.d - 1, self.kinds, self.keys)
        if k == "list":
            return h.list_(list, lambda: sub.gen(h))
        if k == "tuple":
            return h.list_(tuple, lambda: sub.gen(h))
        if k == "pair":
            return [sub.gen(h), sub.gen(h)]
        if k == "idict":
            d = {}
            k = h.choose(3)
            if k == 1:
                d[0] = sub.gen(h)
            elif k == 2:
                for i, v in h.extras([0, 1, 2, 3], Int(), True, True).items():
                    d[i] = v
            return d
        if k == "bytes":
            return h.obj(bytes)
        if k == "datetime":
            return h.obj(datetime.datetime)
        if k == "uuid":
            return h.obj(uuid.UUID)
        d = {}
        j = h.choose(len(self.keys) + 2)
        if j < len(self.keys):
            d[self.keys[j]] = sub.gen(h)
            for i, v in h.extras(self.keys, Int(), False).items():
                d[i] = v
        elif j == len(self.keys):
            for i, v in h.extras(self.keys, sub, True).items():
                d[i] = v
        return d


class WildDoc(T):
    """A document with any subset of the given keys, holding arbitrary data of the given types."""
    hashable = False

    def __init__(self, keys):
        self.keys = keys

    def src(self): return "Any"

    def gen(self, h):
        d = {}
        for k, t in self.keys:
            if h.choose(2) == 1:
                d[k] = t.gen(h)
        return d


class AnyOf(T):
    """A value of one of the given types."""
    hashable = False

    def __init__(self, *ts):
        self.ts = ts

    def src(self): return "Any"
    def gen(self, h): return self.ts[h.choose(len(self.ts))].gen(h)


class Extras(T):
    """A mapping of unknown keys: any number of string keys outside `known`, with arbitrary values."""
    hashable = False

    def __init__(self, known, val=None, some=False):
        self.known, self.val, self.some = list(known), val or Wild(0), some

    def src(self): return "Any"
    def gen(self, h): return h.extras(self.known, self.val, self.some)


class Near(T):
    """A mapping with one of the given keys, which resemble known ones."""
    hashable = False

    def __init__(self, names, val):
        self.names, self.val = names, val

    def src(self): return "Any"
    def gen(self, h): return {self.names[h.pick(len(self.names))]: self.val.gen(h)}
