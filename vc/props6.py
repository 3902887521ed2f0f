"""Contract harnesses, continued: history independence and purity."""
from __future__ import annotations
import collections
from . import catalog, structs, frame
from .env import Raised
from .items import Item, prop
from .props import case_for, each_type, resolve, spec_mod, struct_cases, tag, encoding, roundtrip, struct_roundtrip, fmt_ok
from .props2 import struct_opts, strict_types, wild_for, keys_of
from .props3 import d
from .types import *


# ------------------------------------------------------------------ C16: frame conditions
def op_to(m, h, c, x, w, doc):
    return [h.call(m.to_dict, x), h.call(m.to_tuple, x)]


def op_to_options(m, h, c, x, w, doc):
    return [h.call(m.to_dict, x, reuse_instances=False, convert_sets=True, skip_none=True),
            h.call(m.to_tuple, x, reuse_instances=True, convert_sets=False)]


def op_from(m, h, c, x, w, doc):
    return [h.call(m.from_dict, h.cls(c.name), doc)]


def op_from_options(m, h, c, x, w, doc):
    return [h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=False, deserialize_numbers=float)]


def op_from_wild(m, h, c, x, w, doc):
    return [h.call(m.from_dict, h.cls(c.name), w), h.call(m.from_tuple, h.cls(c.name), w)]


def op_direct(m, h, c, x, w, doc):
    k = h.cls(c.name)
    return [h.call(m.to_dict, [x]), h.call(m.from_dict, list[k], [doc]), h.call(m.from_dict, m.Optional[k], doc),
            h.call(m.from_dict, dict[str, k], {"k": w})]


FRAME_OPS = [op_to, op_to_options, op_from, op_from_options, op_from_wild, op_direct]


def preserves_state(c, op):
    """The call leaves the package, and the classes, as they were; and its inputs as well."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        keys = [n for f in c.de_fields() for n in (c.key(f), *f.alias)]
        w = h.value(AnyOf(Int(), WildDoc([(k, AnyOf(Int(), NoneT())) for k in keys][:3]))) if op is op_from_wild or op is op_direct else None
        bx, bd, bw = h.shared(x), h.shared(doc), h.shared(w)
        classes = [k for k in vars(m).values() if isinstance(k, type) and hasattr(k, "__dataclass_fields__")]
        before = frame.state(*classes)
        op(m, h, c, x, w, doc)
        after = frame.state(*classes)
        diff = frame.differences(before, after)
        h.check(not diff, "the call leaves no trace in the package or in the classes", detail=str(diff)[:400])
        h.same(x, bx, "the object is unchanged")
        h.same(doc, bd, "the document is unchanged")
        h.same(w, bw, "the other input is unchanged")
    return run


# ------------------------------------------------------------------ C16: one call after another
def sample(h, t):
    """Some value: what an earlier call is given does not matter (that any call leaves no trace is shown
    by the frame conditions)."""
    if not h.symbolic:
        return h.value(t)
    from .env import NatEnv
    return NatEnv(h.case, 7).value(t)


def before_to(h, c):
    m = h.mod
    x = sample(h, c.t())
    h.call(m.to_dict, x, reuse_instances=False, convert_sets=True, skip_none=True)
    h.call(m.to_tuple, x, reuse_instances=True, convert_sets=False)


def before_from(h, c):
    m = h.mod
    x = sample(h, c.t())
    o = resolve(c, True, False)
    doc = c.wire(h, x, o)
    h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=False)
    h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=True, deserialize_numbers=float)


def before_fail(h, c):
    m = h.mod
    k = h.cls(c.name)
    for a in ({}, None, 3, {"x": None}, [], [1], "abc"):
        h.call(m.from_dict, k, a)
        h.call(m.from_tuple, k, a)
    h.call(m.to_dict, object.__new__(k))
    h.call(m.to_tuple, object.__new__(k))


def before_direct(h, c):
    m = h.mod
    k = h.cls(c.name)
    Oth = h.cls("Oth")
    x = sample(h, c.t())
    for t in (list[k], m.Union[k, Oth], m.Untagged(m.Union[Oth, k])):
        h.call(m.to_dict, x, t)
        h.call(m.to_tuple, x, t)
        h.call(m.from_dict, t, {})
        h.call(m.from_dict, t, {"kind": c.name})
        h.call(m.from_dict, t, {c.name: {}})
        h.call(m.from_tuple, t, [])


def before_define(h, c):
    """Other classes are defined that use, extend or imitate the class."""
    h.mod.define_others(h.cls(c.name))


def before_inspect(h, c):
    from serde.inspect import inspect      # not exported
    inspect(h.cls(c.name))


DEFINE = """
def define_others(k):
    @serde
    class Sub(k):
        extra: int = 5
    @serde(rename_all="camelcase", deny_unknown_fields=True, type_check=disabled, reuse_instances_default=False,
           convert_sets_default=True, tagging=Untagged)
    class Holder:
        one: k
        many: list[k]
        maybe: Optional[k] = None
        either: Union[k, str] = 'x'
    @serde(transparent=True)
    class Only:
        one: k
    @serde(class_serializer=OtherSer(), class_deserializer=OtherDe(), serializer=oser, deserializer=ode)
    class Custom:
        one: k
        n: int = 1
    for n, t in (("A", int), ("B", str)):
        serde(dataclasses.make_dataclass(n, [("x", t), ("tail", t)]))
    return Sub, Holder, Only, Custom

class OtherSer:
    @dispatch
    def serialize(self, v: int) -> Any:
        return 'other'
class OtherDe:
    @dispatch
    def deserialize(self, cls: type[int], w: Any) -> Any:
        return 12345
from serde import SerdeSkip
def oser(cls, v):
    raise SerdeSkip()
def ode(cls, w):
    raise SerdeSkip()
"""

BEFORE = [before_to, before_from, before_fail, before_direct, before_define]
OTH = C("Oth", [F("q", Int())])


def after(b, c, then):
    def run(h):
        frame.fresh()
        b(h, c)
        then(h)
    return run


# ------------------------------------------------------------------ C16: related types
def direct(t, fmt=None, check=True):
    """The contract of the API on a type that is not a class."""
    def run(h):
        m = h.mod
        v = h.value(t)
        before = h.shared(v)
        ty = h.evaluate(t.src())
        o = Opts(True, False, False, False)
        want = t.enc(h, v, o)
        r = h.ok(h.call(m.to_dict, v, ty, reuse_instances=False, convert_sets=False), "serialization succeeds")
        h.same(r, want, "the document is the documented encoding")
        y = h.ok(h.call(m.from_dict, ty, want, reuse_instances=False), "deserialization succeeds")
        h.same(y, before, "the value is restored")
        h.same(v, before, "input unchanged")
    return run


P1 = C("P1", [F("a", Int()), F("b", Str())])
P2 = C("P2", [F("a", Int()), F("b", Str()), F("c", Int(), default="0")])
P3 = C("P3", [F("z", Str())])


class Wrapped(UnionT):
    """A union with a tagging given to the API, e.g. InternalTagging("t")(Union[A, B])."""

    def __init__(self, tagging, *ts):
        super().__init__(*ts)
        self.tagging = tagging

    def src(self): return f"{self.tagging}({super().src()})"

    def enc(self, h, v, o):
        from .env import apply_tag
        old = h.cur_class
        h.cur_class = C("W", [], tagging=self.tagging)
        try:
            return super().enc(h, v, o)
        finally:
            h.cur_class = old


def families():
    """Types that are equal, similar or share names: the outcome for one must not depend on another."""
    a, b, z = d(P1), d(P2), d(P3)
    yield "order", [UnionT(UUID, Str()), UnionT(Int(), Str()), UnionT(Str(), Int())]
    yield "classes", [UnionT(a, z), UnionT(z, a), UnionT(a, z, Str()), UnionT(b, z)]
    yield "tagging", [UnionT(a, z), Wrapped('InternalTagging("t")', a, z), Wrapped('InternalTagging("kind")', a, z),
                      Wrapped('AdjacentTagging("t", "c")', a, z), Wrapped('AdjacentTagging("t", "content")', a, z)]
    yield "listunion", [ListT(UnionT(Int(), Str())), ListT(UnionT(Str(), Int())), ListT(Int()), ListT(Str())]
    yield "lists", [ListT(a), ListT(b), ListT(z), VarTuple(a), DequeT(a), DictT(Str(), a), Opt(a)]
    yield "sets", [UnionT(SetT(Int()), Str()), UnionT(FrozenSetT(Int()), Str()), UnionT(ListT(Int()), Str())]
    yield "opts", [Opt(Int()), Opt(Str()), Opt(ListT(Int())), Opt(a)]
    yield "str", [UUID, DATETIME, ListT(UUID), ListT(DATETIME)]


def pair_run(t1, t2):
    def run(h):
        frame.fresh()
        direct(t1)(h)
        direct(t2)(h)
    return run


# ------------------------------------------------------------------ C16: results are independent objects
def no_alias(c):
    """Mutable parts of a result are new objects: neither parts of the input nor shared between results."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        k = h.cls(c.name)
        y, y2 = (h.ok(h.call(m.from_dict, k, doc, reuse_instances=o.reuse), "deserialization succeeds") for _ in range(2))
        r, r2 = (h.ok(h.call(m.to_dict, x, reuse_instances=o.reuse), "serialization succeeds") for _ in range(2))
        for what, u, v in (("results of two reads", y, y2), ("a document and the object read from it", y, doc),
                           ("results of two writes", r, r2), ("an object and the document written from it", x, r)):
            pu, pv = parts(u), parts(v)
            common = [n for i, n in pu.items() if i in pv]
            h.check(not common, f"{what} share no mutable part", detail=str(common)[:300])
    return run


def parts(v, path="$", out=None):
    """Mutable objects reachable in a value."""
    out = {} if out is None else out
    if type(v) in (list, dict, set, collections.deque, collections.defaultdict, collections.Counter) or hasattr(type(v), "__dataclass_fields__"):
        if hasattr(type(v), "__dataclass_fields__"):
            if getattr(type(v), "__dataclass_params__").frozen or type(v).__name__ == "Kid":
                return out
            out[id(v)] = path
            for n in type(v).__dataclass_fields__:
                if hasattr(v, n):
                    parts(getattr(v, n), f"{path}.{n}", out)
            return out
        out[id(v)] = path
    if type(v) in (list, tuple, collections.deque):
        for i, e in enumerate(frame.elements(v)):
            parts(e, f"{path}[{i}]", out)
    elif isinstance(v, dict):
        for e in frame.elements(v):
            parts(e, f"{path}[...]", out)
    return out


@prop("C16")
def c16(tier):
    ts = strict_types()
    progs = []
    for i, t in enumerate(ts):
        progs.append((f"t{i}", C("A", [F("x", t), F("tail", Int())]), None))
    for i, c, case in struct_cases():
        if tier == "thorough" or i % 8 == 0:
            progs.append((f"struct{i}", c, case))
    for j, (n, c, case) in enumerate(progs):
        case = case_for(f"fr_{n}", c, OTH, footer=DEFINE)
        for i, op in enumerate(FRAME_OPS):
            if tier == "thorough" or (i + j) % 3 == 0 or n.startswith("t") and op in (op_to, op_from):
                yield Item("C16", f"frame/{n}/{op.__name__}", case, preserves_state(c, op))
        for i, b in enumerate(BEFORE):
            if b is before_define and (c.frozen or c.slots or c.kw_only or n.startswith("struct")):
                continue
            if tier == "thorough" or (i + j) % 3 == 0 or b is before_fail and j % 2 == 0:
                st = n.startswith("struct")
                named = not (i + j) % 2 or any(f.skip_serializing for f in c.fields)
                yield Item("C16", f"after/{n}/{b.__name__}/enc", case, after(b, c, encoding(c, True, None, None)))
                yield Item("C16", f"after/{n}/{b.__name__}/rt{int(named)}", case,
                           after(b, c, (struct_roundtrip if st else roundtrip)(c, named, None, None)))
        if "Any" not in str(c.t()) and not any(isinstance(f.t, (Bare, AnyT)) for f in c.fields):
            yield Item("C16", f"alias/{n}", case, no_alias(c))
    for n, ts in families():
        case = case_for(f"fam_{n}", *ts, OTH)
        for i, t1 in enumerate(ts):
            for j, t2 in enumerate(ts):
                if i != j and not (n == "order" and (i == 0 or j == 0)):
                    yield Item("C16", f"pair/{n}/{i}{j}", case, pair_run(t1, t2))
