"""Contract harnesses, continued: values passed to the API directly, enums and literals."""
from __future__ import annotations
import enum
from . import catalog
from .catalog import SMALL, SMALL_F
from .env import Raised
from .items import Item, prop
from .props import FORMATS, case_for, fmt_ok, lib, resolve, spec_mod, tag
from .props3 import d
from .props7 import generic_specs, encodes, decodes, format_restores
from .types import *


# ------------------------------------------------------------------ C18
def plain_key(t):
    return isinstance(t, (Int, Str, Float, StrSer, Dt, EnumT)) or isinstance(t, NewT)


def direct_ok(t):
    """Types with an API contract of their own: literals are not types of values, and keys of a mapping
    are passed through."""
    if isinstance(t, (Lit, AnyT, NoneT, UnionT, Bare)):
        return False
    if isinstance(t, DictT):
        return plain_key(t.k) and direct_ok(t.v)
    if isinstance(t, CounterT):
        return plain_key(t.t)
    if isinstance(t, TupleT):
        return all(direct_ok(x) for x in t.ts)
    if isinstance(t, (Wrap, VarTuple, Alias695)):
        return direct_ok(t.t)
    return True


def direct_types(tier):
    out = [t for t in catalog.leaves() + catalog.more_leaves() if direct_ok(t)]
    out += [t for t in catalog.depth1() if direct_ok(t)]
    d2 = [t for t in catalog.depth2() if direct_ok(t)]
    out += d2 if tier == "thorough" else d2[::3]
    out += [VarTuple(TupleT(Opaque(), Int())), ListT(DictT(Str(), ListT(Opaque()))), Opt(ListT(Opt(UUID)))]
    return out


def classless(o):
    return Opts(o.named, o.reuse, o.sets, o.skip_none, True)


def has_class(t):
    return any(isinstance(c[1], C) or True for c in t.classes())


def direct_encodes(t, named, reuse, sets, skip_none):
    def run(h):
        m = h.mod
        x = h.value(t)
        before = h.shared(x)
        o = Opts(named, reuse is not False, bool(sets), skip_none, True)
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets,
                        **({"skip_none": True} if skip_none else {})), "serialization succeeds")
        h.same(r, t.enc(h, x, o), "the document is the documented encoding")
        h.same(x, before, "input unchanged")
    return run


def direct_decodes(t, named, reuse):
    def run(h):
        m = h.mod
        x = h.value(t)
        doc = t.enc(h, x, Opts(named, False, True, False, True))
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.evaluate(t.src()), doc, reuse_instances=reuse),
                 "deserialization succeeds")
        h.same(y, x, "the document is read as the value it encodes")
    return run


def direct_format(t, fmt):
    base = fmt.split("_")[0]

    def run(h):
        to, frm = lib(h, fmt)
        x = h.value(t)
        before = h.shared(x)
        kw = {"named": False} if fmt == "msgpack_tuple" else {}
        s = h.ok(h.call(to, x, **kw), "serialization succeeds")
        y = h.ok(h.call(frm, h.evaluate(t.src()), s, **kw), "deserialization succeeds")
        h.same(y, before, f"{base} round trip gives an equal value")
        h.same(x, before, "input unchanged")
    return run


def direct_items(tier):
    for i, t in enumerate(direct_types(tier)):
        n = f"direct{i}/{t}"
        case = case_for(f"c18_{i}", C("Dummy", [F("x", t)]))
        for j, (named, reuse, sets, sn) in enumerate([(True, None, None, False), (True, False, True, False), (True, True, False, True),
                                                      (False, None, None, False), (False, False, True, False)]):
            if tier == "quick" and j and (i + j) % 2:
                continue
            yield Item("C18", f"{n}/encode/{int(named)}{tag(reuse)}{tag(sets)}{int(sn)}", case, direct_encodes(t, named, reuse, sets, sn))
        yield Item("C18", f"{n}/decode/1", case, direct_decodes(t, True, None))
        yield Item("C18", f"{n}/decode/0", case, direct_decodes(t, False, False))
        for j, fmt in enumerate(FORMATS):
            if fmt_ok(t, fmt) and (fmt.split("_")[0] != "toml" or isinstance(t, (DictT, Data, Opaque, CounterT))) and (tier == "thorough" or (i + j) % 2):
                yield Item("C18", f"{n}/{fmt}", case, direct_format(t, fmt))


# ------------------------------------------------------------------ C18: unions, tagged unions, options
def direct_unions():
    A1, B1 = C("Ua", [F("p", Int()), F("u", UUID)]), C("Ub", [F("q", SetT(Int())), F("o", Opt(Str()))])
    yield "classes", UnionT(d(A1), d(B1))
    yield "class-int", UnionT(d(B1), Int())
    yield "opaque", UnionT(Opaque(), d(A1))
    yield "uuid", UnionT(UUID, Int())
    yield "date", UnionT(Int(), DATETIME)
    yield "containers", UnionT(ListT(d(A1)), DictT(Str(), Int()), Str())
    yield "sets", UnionT(SetT(UUID), Str())


def direct_union(u, tagging, named, reuse, sets, skip_none):
    def run(h):
        m = h.mod
        v = h.value(u)
        src = u.src()
        if tagging is not None:
            k = tagging.rstrip(")")
            src = f"{k}{', ' if '(' in tagging else '('}{src})"
        typ = h.evaluate(src)
        h.cur_class = C("_", [], tagging=tagging)
        before = h.shared(v)
        o = Opts(named, bool(reuse), bool(sets), skip_none)
        to, frm = (m.to_dict, m.from_dict) if named else (m.to_tuple, m.from_tuple)
        r = h.ok(h.call(to, v, c=typ, reuse_instances=reuse, convert_sets=sets,
                        **({"skip_none": True} if skip_none else {})), "serialization succeeds")
        h.same(r, u.enc(h, v, o), "the documented representation of the union")
        y = h.ok(h.call(frm, typ, r, reuse_instances=reuse), "deserialization succeeds")
        h.same(y, before, "round trip gives an equal value")
        h.same(v, before, "input unchanged")
    return run


@prop("C18")
def c18(tier):
    yield from direct_items(tier)
    for n, u in direct_unions():
        case = case_for(f"c18u_{n}", C("Dummy", [F("x", u)]))
        for ti, tg in enumerate([None, 'InternalTagging("kd")', 'AdjacentTagging("t", "c")', "Untagged"]):
            for j, (reuse, sets, sn) in enumerate([(None, None, False), (False, True, False), (True, False, False), (False, True, True)]):
                yield Item("C18", f"union/{n}/{ti}/{tag(reuse)}{tag(sets)}{int(sn)}", case, direct_union(u, tg, True, reuse, sets, sn))
    # classes that are generic, transparent, renamed, not decorated
    S = generic_specs()
    for t in (Gen(S["G"], UUID), Gen(S["GL"], Opaque()), Gen(S["GP"], Int(), DATE), Gen(S["N5"], Str(), SetT(Int())),
              d(C("Tr", [F("v", ListT(UUID))], transparent=True)), d(C("Re", [F("a_b", DATE), F("c_d", Opt(Int()))], rename_all="camelcase")),
              d(C("Pl", [F("a_b", DATE), F("s", SetT(Int()))], deco="dataclass"))):
        for n, w in (("", t), ("list", ListT(t)), ("opt", Opt(t)), ("dict", DictT(Str(), t)), ("tuple", TupleT(Int(), t)), ("deque", DequeT(t))):
            case = case_for(f"c18c_{t.src()}_{n}", C("Dummy", [F("x", w)]))
            for named in (True, False):
                if "Pl" != t.src():
                    yield Item("C18", f"class/{w}/encode/{int(named)}", case, direct_encodes(w, named, False, True, False))
                yield Item("C18", f"class/{w}/decode/{int(named)}", case, direct_decodes(w, named, False))
            for fmt in ("json", "msgpack", "yaml"):
                if fmt_ok(w, fmt):
                    yield Item("C18", f"class/{w}/{fmt}", case, direct_format(w, fmt))


# ------------------------------------------------------------------ C19
NESTED_INT = EnumT("EIn", "enum.Enum", (("I", "10"), ("J", "(1, 2)")))


class NestEnum(EnumT):
    def classes(self):
        return E_STR.classes() + NESTED_INT.classes() + super().classes()


ENUMS = [
    E_STR, E_INT, E_STRENUM,
    EnumT("EMix2", "enum.Enum", (("A", "1"), ("B", "'b'"), ("D", "(1, 2)"), ("E", "7"))),
    EnumT("ETup", "enum.Enum", (("A", "(1, 'a')"), ("B", "(2, 'b')"), ("D", "()"))),
    EnumT("ETup2", "enum.Enum", (("A", "'a'"), ("B", "(2, 'b')"), ("D", "((1, 2), 3)"))),
    EnumT("EAlias", "enum.Enum", (("A", "1"), ("B", "2"), ("A2", "1"))),
    EnumT("ENeg", "enum.Enum", (("A", "-1"), ("B", "0"), ("D", "2**40"))),
    EnumT("EStrE", "enum.StrEnum", (("A", "'1'"), ("B", "'two words'"), ("D", "''"))),
    NestEnum("ENs", "enum.Enum", (("A", "EStr.X"), ("B", "EIn.I"), ("D", "'zz'"), ("E", "EIn.J"))),
    EnumT("EFirst", "enum.Enum", (("A", "'x'"), ("B", "3"), ("D", "4"))),
]
POSITIONS = {
    "field": lambda t: t,
    "optional": lambda t: Opt(t),
    "list": lambda t: ListT(t),
    "dict": lambda t: DictT(Str(), t),
    "tuple": lambda t: TupleT(t, Int()),
    "set": lambda t: SetT(t),
    "union": lambda t: UnionT(t, DictT(Str(), Int())),
    "vartuple": lambda t: VarTuple(t),
}


def enum_exact(t, named, direct):
    """Every document value is a member's encoding and read as that member, or is rejected."""
    texts = sorted({str(x) for x in ("x", "1", "10", "-1", "nope", "A", "EStr.X", "zz", "b", "3.5", "")})

    def run(h):
        m = h.mod
        cls = h.cls(t.name)
        members = list(cls.__members__.values())
        ints = all(type(spec_mod().value_of(e)) is not str for e in members)
        k = h.pick(5)
        if k == 0:
            v = h.value(Int())
        elif k == 1:
            # text is read by the type of the values: all of it when they are text, else by its number
            v = texts[h.pick(len(texts))] if ints or type(spec_mod().value_of(members[0])) is not str else h.value(Str())
        elif k == 2:
            v = spec_mod().as_lists(spec_mod().value_of(members[h.pick(len(members))]))
        elif k == 3:
            v = h.value(NoneT())
        else:
            v = [[], ["x"], [1, 2], [2, "b"], [[1, 2], 3], {}, {"x": 1}, 2.5][h.pick(8)]
        want = spec_mod().member_for(members, v)
        if direct:
            y = h.call(m.from_dict, cls, v)
        else:
            r = h.call(m.from_dict if named else m.from_tuple, h.cls("A"), {"x": v, "tail": 3} if named else (v, 3))
            y = r if isinstance(r, Raised) else r.x
        if want is None:
            h.raises(y, m.SerdeError, "a value that is no member's is rejected")
        else:
            h.check(h.ok(y, "a member's value is accepted") is want, "the value is read as its member")
    return run


def enum_compatible(t):
    """Where the member is expected, its value is written like the member (documented)."""
    def run(h):
        m = h.mod
        cls = h.cls(t.name)
        e = list(cls.__members__.values())[h.pick(len(t.members))]
        a, b = object.__new__(h.cls("A")), object.__new__(h.cls("A"))
        for o, x in ((a, e), (b, e.value)):
            o.x = x
            o.tail = 1
        h.same(h.ok(h.call(m.to_dict, b), "serialization succeeds"), h.ok(h.call(m.to_dict, a), "serialization succeeds"),
               "the member's value is written like the member")
    return run


LITERALS = [(1, 2, 3), ("a", "b"), (1, "a", True), (False, "x"), ("1", 2), ("",), (-5, "long text with spaces", 10 ** 12), (b"x", 1)]


def literal_exact(vals, named):
    def run(h):
        m = h.mod
        k = h.pick(4)
        if k == 0:
            v = h.value(Int()) if not any(type(w) is bool for w in vals) else 12
        elif k == 1:
            v = h.value(Str())
        elif k == 2:
            v = vals[h.pick(len(vals))]
        else:
            v = [None, (), "nope", (1,), 0.5, 10 ** 13][h.pick(6)]
        r = h.call(m.from_dict if named else m.from_tuple, h.cls("A"), {"x": v, "tail": 3} if named else (v, 3))
        want = any(v == w for w in vals)
        if want:
            y = h.ok(r, "a listed value is accepted")
            h.same(y.x, v, "and kept")
        else:
            h.raises(r, m.SerdeError, "a value that is not listed is rejected")
    return run


@prop("C19")
def c19(tier):
    for t in ENUMS:
        for pn, mk in POSITIONS.items():
            if pn == "union" and ("Tup" in t.name or "Mix" in t.name or "Ns" in t.name):
                continue
            ft = mk(t)
            c = C("A", [F("x", ft), F("tail", Int())])
            case = case_for(f"c19_{t.name}_{pn}", c)
            for named in (True, False):
                yield Item("C19", f"{t.name}/{pn}/encode/{int(named)}", case, encodes(c.t(), c, named, None, None))
                yield Item("C19", f"{t.name}/{pn}/decode/{int(named)}", case, decodes(c.t(), c, named))
            for fmt in ("json", "yaml", "toml", "msgpack", "msgpack_tuple", "pickle"):
                if fmt_ok(ft, fmt) and not (fmt == "yaml" and t.name in ("EStrE", "EStrENum", "EStrEnum")):
                    yield Item("C19", f"{t.name}/{pn}/{fmt}", case, format_restores(c.t(), fmt))
            if pn != "union":
                yield Item("C19", f"{t.name}/{pn}/direct/json", case, direct_format(ft, "json"))
        case = case_for(f"c19_{t.name}_field", C("A", [F("x", t), F("tail", Int())]))
        for named, direct in ((True, False), (False, False), (True, True)):
            yield Item("C19", f"{t.name}/exact/{int(named)}{int(direct)}", case, enum_exact(t, named, direct))
        yield Item("C19", f"{t.name}/compatible", case, enum_compatible(t))
        if all("(" not in s and "E" not in s for _, s in t.members):
            c = C("A", [F("x", DictT(t, Int())), F("tail", Int())])
            case = case_for(f"c19_{t.name}_key", c)
            for fmt in ("json", "yaml", "toml", "msgpack"):
                if t.name in ("EStr", "EStrEnum", "EStrE") and not (fmt == "yaml" and t.name != "EStr") or fmt == "json":
                    yield Item("C19", f"{t.name}/key/{fmt}", case, format_restores(c.t(), fmt))
    for i, vals in enumerate(LITERALS):
        t = Lit(*vals)
        for pn, mk in POSITIONS.items():
            if pn == "set" or pn == "union" and not all(type(v) in (str, int) for v in vals):
                continue
            c = C("A", [F("x", mk(t)), F("tail", Int())])
            case = case_for(f"c19_lit{i}_{pn}", c)
            for named in (True, False):
                yield Item("C19", f"lit{i}/{pn}/encode/{int(named)}", case, encodes(c.t(), c, named, None, None))
                yield Item("C19", f"lit{i}/{pn}/decode/{int(named)}", case, decodes(c.t(), c, named))
            if b"x" not in vals:
                for fmt in ("json", "msgpack"):
                    yield Item("C19", f"lit{i}/{pn}/{fmt}", case, format_restores(c.t(), fmt))
        case = case_for(f"c19_lit{i}_field", C("A", [F("x", t), F("tail", Int())]))
        for named in (True, False):
            yield Item("C19", f"lit{i}/exact/{int(named)}", case, literal_exact(vals, named))
