"""The contract harnesses: one function per kind of obligation, applied to every program of the
catalogue. A harness calls the real API and states its postcondition; the values it calls it with are
arbitrary (symbolic) values of the program's types."""
from __future__ import annotations
import collections
from . import catalog, structs
from .case import Case
from .env import Raised
from .items import Item, prop
from .types import *

_cases: dict = {}


def case_for(id, *roots, **kw):
    if id not in _cases:
        _cases[id] = Case(id, *roots, **kw)
    return _cases[id]


def spec_mod():
    from . import spec
    return spec


# ------------------------------------------------------------------ options
def resolve(c, named=True, reuse=None, sets=None, skip_none=False):
    """Options in force for a call on an instance of class c: an explicit argument wins, `None` means
    the class's own default."""
    r = reuse if reuse is not None else (c.reuse if c.reuse is not None else c.deco == "serde")
    s = sets if sets is not None else (c.sets if c.sets is not None else False)
    return Opts(named, r, s, skip_none)


OPT_MATRIX = [(None, None), (False, True), (False, False), (True, None), (True, True)]


def tag(b):
    return {None: "d", True: "1", False: "0"}[b]


# ------------------------------------------------------------------ programs: one class per field type
def type_sets(tier):
    """(name, list of types, option pairs)"""
    base = catalog.leaves() + catalog.more_leaves() + catalog.bare()
    return base, catalog.depth1(), catalog.depth2()


UNDECIDABLE_D2 = ("Counter[int], int", "dict[str, EStr], int", "dict[EStr, int], int")


def type_case(t, i, group):
    c = C("A", [F("x", t), F("tail", Int())])
    return case_for(f"{group}{i}", c), c


def each_type(tier, sel=None):
    base, d1, d2 = type_sets(tier)
    for group, ts in (("leaf", base), ("d1_", d1), ("d2_", d2)):
        for i, t in enumerate(ts):
            if sel is not None and not sel(group, i, t):
                continue
            case, c = type_case(t, i, group)
            yield group, i, t, case, c


def each_mix(tier):
    """Classes with fields of many types at once, and every kind of mapping key."""
    for i, c in catalog.mixes(60 if tier == "quick" else 400):
        yield f"mix{i}", c, case_for(f"mix{i}", c)
    for i, t in enumerate(catalog.keyed()):
        c = C("A", [F("x", t), F("tail", Int())])
        yield f"key{i}/{t}", c, case_for(f"key{i}", c)


def each_option(tier):
    """Option-sensitive classes under every class option: yields name, class, case, (reuse, sets) of the call."""
    for cr in (None, True, False):
        for cs in (None, True, False):
            for deco in ("serde", "pair", "pair2") if cr is None and cs is None else ("serde", "pair2") if cs else ("serde",):
                inner = C("Mid", [F("u", SetT(UUID)), F("p", Opt(PATH))], reuse=None if cr is None else not cr,
                          sets=None if cs is None else not cs)
                c = C("A", [F("d", DATETIME), F("s", SetT(IPV4)), F("m", Data(inner)), F("n", DictT(Str(), ListT(FrozenSetT(Int())))),
                            F("o", UnionT(DATETIME, SetT(Int()))), F("z", Opt(Str()))], reuse=cr, sets=cs, deco=deco)
                case = case_for(f"opt_{cr}_{cs}_{deco}", c)
                for reuse in (None, True, False):
                    for sets in (None, True, False):
                        yield f"{tag(cr)}{tag(cs)}{deco}/{tag(reuse)}{tag(sets)}", c, case, reuse, sets


def canary(pid):
    """A false contract: the machinery must refute it."""
    c = C("A", [F("x", Int()), F("tail", ListT(Str()))])

    def run(h):
        x = h.value(c.t())
        r = h.ok(h.call(h.mod.to_dict, x), "serialization succeeds")
        h.check(r["x"] != 4711, "deliberately false postcondition")
    return Item(pid, "canary/false", case_for("canary", c), run)


# ------------------------------------------------------------------ C01 / C02: round trip
def roundtrip(c, named, reuse, sets):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        before = h.shared(x)
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets),
                 "serialization succeeds")
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.evaluate(c.t().src()), r, reuse_instances=reuse),
                 "deserialization succeeds")
        h.same(y, before, "round trip gives an equal value")
        h.same(x, before, "input unchanged")
    return run


def struct_roundtrip(c, named, reuse, sets, skip_none=False):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        before = h.shared(x)
        o = resolve(c, named, reuse, sets, skip_none)
        kw = {"skip_none": True} if skip_none else {}
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets, **kw),
                 "serialization succeeds")
        if named:
            doc = c.enc(h, x, o)
            present = [f.name for f in c.de_fields() if c.key(f) in doc]
        else:
            present = [f.name for f in c.de_fields()]
        want = spec_mod().restored(h, c, before, present)
        # the other direction gets the option the first one resolved to
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), r, reuse_instances=o.reuse)
        if want is None:
            h.raises(y, m.SerdeError, "an incomplete document is rejected")
            return
        y = h.ok(y, "deserialization succeeds")
        h.same(y, want, "round trip restores every field")
        h.same(x, before, "input unchanged")
    return run


def rt_opts(tier, group):
    if group == "leaf" or tier == "thorough":
        return OPT_MATRIX
    return OPT_MATRIX[:2]


@prop("C01")
def c01(tier):
    for group, i, t, case, c in each_type(tier):
        for reuse, sets in rt_opts(tier, group):
            yield Item("C01", f"{group}{i}/{t}/{tag(reuse)}{tag(sets)}", case, roundtrip(c, True, reuse, sets))
    yield from struct_items("C01", tier, True)
    for n, c, case in each_mix(tier):
        for reuse, sets in OPT_MATRIX[:2] if n.startswith("mix") or tier == "thorough" else OPT_MATRIX[:1]:
            yield Item("C01", f"{n}/{tag(reuse)}{tag(sets)}", case, roundtrip(c, True, resolve(c, True, reuse).reuse, sets))
    for n, c, case, reuse, sets in each_option(tier):
        yield Item("C01", f"opt/{n}", case, struct_roundtrip(c, True, reuse, sets))


def struct_cases():
    for i, c in enumerate(structs.classes()):
        yield i, c, case_for(f"st{i}", c)


def struct_items(pid, tier, named):
    for i, c, case in struct_cases():
        if not named and any(f.skip_serializing for f in c.fields):
            continue
        for reuse, sets, sn in [(None, None, False), (False, True, True)] if tier == "quick" else \
                [(None, None, False), (False, True, True), (False, True, False), (True, False, True)]:
            yield Item(pid, f"struct{i}/{tag(reuse)}{tag(sets)}{int(sn)}", case,
                       struct_roundtrip(c, named, reuse, sets, sn))


@prop("C02")
def c02(tier):
    for group, i, t, case, c in each_type(tier):
        for reuse, sets in rt_opts(tier, group):
            yield Item("C02", f"{group}{i}/{t}/{tag(reuse)}{tag(sets)}", case, roundtrip(c, False, reuse, sets))
    yield from struct_items("C02", tier, False)
    for n, c, case in each_mix(tier):
        for reuse, sets in OPT_MATRIX[:2] if n.startswith("mix") or tier == "thorough" else OPT_MATRIX[:1]:
            yield Item("C02", f"{n}/{tag(reuse)}{tag(sets)}", case, roundtrip(c, False, resolve(c, True, reuse).reuse, sets))
    for n, c, case, reuse, sets in each_option(tier):
        yield Item("C02", f"opt/{n}", case, struct_roundtrip(c, False, reuse, sets))


# ------------------------------------------------------------------ C04: exact encoding
def encoding(c, named, reuse, sets, skip_none=False, order=False):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        before = h.shared(x)
        o = resolve(c, named, reuse, sets, skip_none)
        kw = {"skip_none": True} if skip_none else {}
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets, **kw),
                 "serialization succeeds")
        h.same(x, before, "input unchanged")
        h.same(r, c.enc(h, x, o), "the document is the documented encoding", order=order)
        if reuse is None and sets is None and not skip_none:
            f = m.serde_asdict if named else m.serde_astuple
            h.same(h.ok(h.call(f, x), "serialization succeeds"), c.enc(h, x, resolve(c, named, False, False)),
                   "asdict and astuple copy everything")
        if not o.reuse and o.sets and all_plain(c):
            spec_mod().plain(h, r, "the document holds plain data only")
    return run


def all_plain(c):
    return not any("Any" in f.t.src() for f in c.all_fields())


@prop("C04")
def c04(tier):
    for group, i, t, case, c in each_type(tier):
        if group == "d2_" and tier == "quick" and i % 2:
            continue
        for named in (True, False):
            for reuse, sets in (OPT_MATRIX if group == "leaf" else rt_opts(tier, group)):
                yield Item("C04", f"{group}{i}/{t}/{int(named)}{tag(reuse)}{tag(sets)}", case,
                           encoding(c, named, reuse, sets))
    for n, c, case in held_programs():
        for named, reuse, sets in ((True, None, None), (True, False, True), (True, True, False), (False, None, True)):
            yield Item("C04", f"{n}/{int(named)}{tag(reuse)}{tag(sets)}", case, encoding(c, named, reuse, sets))
    for n, c, case in classvar_programs():
        for named, reuse, sets, sn in ((True, None, None, False), (True, False, True, True), (False, False, True, False)):
            yield Item("C04", f"{n}/{int(named)}{tag(reuse)}{tag(sets)}", case, encoding(c, named, reuse, sets, sn, order=True))
    for i, c, case in struct_cases():
        for named, reuse, sets, sn in [(True, None, None, False), (True, False, True, True), (True, True, False, True),
                                       (False, None, None, False), (False, False, True, False)]:
            yield Item("C04", f"struct{i}/{int(named)}{tag(reuse)}{tag(sets)}{int(sn)}", case,
                       encoding(c, named, reuse, sets, sn, order=True))
    for n, c, case in each_mix(tier):
        for named in (True, False):
            for reuse, sets in OPT_MATRIX[:2] if n.startswith("mix") or tier == "thorough" else OPT_MATRIX[:1]:
                yield Item("C04", f"{n}/{int(named)}{tag(reuse)}{tag(sets)}", case, encoding(c, named, reuse, sets, order=True))
    for n, c, case, reuse, sets in each_option(tier):
        for named in (True, False):
            yield Item("C04", f"opt/{n}/{int(named)}", case, encoding(c, named, reuse, sets, order=True))
        if n.startswith("dd"):
            yield Item("C04", f"opt/{n}/s", case, encoding(c, True, reuse, sets, True, order=True))


# ------------------------------------------------------------------ C03: formats
FORMATS = ["json", "yaml", "toml", "msgpack", "msgpack_tuple", "pickle"]


def str_key(t):
    if isinstance(t, EnumT):
        return all(s.startswith("'") for _, s in t.members)
    return isinstance(t, (Str, StrSer, Dt)) and t is not None


def num_key(t):
    return isinstance(t, (Int, Float)) or (isinstance(t, EnumT) and t.name == "EInt")


def fmt_ok(t, fmt, top=True, in_union=False):
    """Is a value of type t representable in the format (documented limits of each format)?"""
    base = fmt.split("_")[0]
    if isinstance(t, Held):
        return fmt_ok(t.t, fmt, top, in_union)
    if isinstance(t, (AnyT, NoneT)) and base == "toml":
        return False
    if isinstance(t, Opt):
        if base == "toml" and not top:
            return False
        return fmt_ok(t.t, fmt, top, in_union)
    if isinstance(t, PrimSub) and base == "yaml":
        return False
    if isinstance(t, NewT):
        return True
    if isinstance(t, DictT):
        k = t.k
        ok = str_key(k)
        if base in ("yaml", "pickle"):
            ok = ok or num_key(k)
        if base == "json" and not in_union:
            ok = ok or num_key(k)
        return ok and fmt_ok(t.v, fmt, False, in_union)
    if isinstance(t, CounterT):
        return isinstance(t.t, Str) or (base in ("yaml", "pickle") and isinstance(t.t, Int))
    if isinstance(t, (ListT, SetT, Alias695)):
        return fmt_ok(t.t, fmt, False if not isinstance(t, Alias695) else top, in_union)
    if isinstance(t, TupleT):
        return all(fmt_ok(x, fmt, False, in_union) for x in t.ts)
    if isinstance(t, UnionT):
        # subclasses of primitives are not told apart from the primitive in a union
        return all(fmt_ok(x, fmt, False, True) and not isinstance(x, PrimSub) for x in t.ts)
    return True


def lib(h, fmt):
    import importlib
    base = fmt.split("_")[0]
    m = importlib.import_module(f"serde.{base}")
    return getattr(m, f"to_{base}"), getattr(m, f"from_{base}")


def fmt_roundtrip(c, fmt, struct=False, opts=None):
    base = fmt.split("_")[0]

    def run(h):
        to, frm = lib(h, fmt)
        x = h.value(c.t())
        before = h.shared(x)
        kw = {"named": False} if fmt == "msgpack_tuple" else {}
        s = h.ok(h.call(to, x, **kw, **(opts or {})), "serialization succeeds")
        y = h.call(frm, h.evaluate(c.t().src()), s, **kw)
        if struct:
            named = fmt != "msgpack_tuple"
            o = resolve(c, named, False, True, base == "toml" or bool((opts or {}).get("skip_none")))
            if named:
                doc = c.enc(h, x, o)
                present = [f.name for f in c.de_fields() if c.key(f) in doc]
            else:
                present = [f.name for f in c.de_fields()]
            want = spec_mod().restored(h, c, before, present)
            if want is None:
                h.raises(y, h.mod.SerdeError, "an incomplete document is rejected")
                return
        else:
            want = before
        y = h.ok(y, "deserialization succeeds")
        h.same(y, want, f"{base} round trip gives an equal value")
        h.same(x, before, "input unchanged")
    return run


def fmt_text(c, fmt, opts):
    """The text is what the format library writes for the plain document, with the caller's options."""
    def run(h):
        import json, yaml, tomli_w, msgpack, pickle
        to, frm = lib(h, fmt)
        x = h.value(c.t())
        s = h.ok(h.call(to, x, **opts), "serialization succeeds")
        from .fmt import Text
        if h.symbolic and type(s) is Text:
            h.check(s.fmt == fmt, "the format library writes the document")
            h.check(all(s.opts.get(k) == v for k, v in opts.items()), "options reach the format library")
            o = resolve(c, True, False, True, fmt == "toml")
            doc = c.enc(h, x, o)
            h.same(s.value, spec_mod().copy_plain(doc) if fmt == "pickle" else spec_mod().norm(doc, fmt), "text of the documented document")
            return
        doc = h.mod.to_dict(x, reuse_instances=False, convert_sets=True, skip_none=fmt == "toml")
        if fmt == "json":
            k = {"ensure_ascii": False, "separators": (",", ":"), **opts}
            w = json.dumps(doc, **k)
        elif fmt == "yaml":
            w = yaml.safe_dump(doc, **opts)
        elif fmt == "toml":
            w = tomli_w.dumps(doc, **opts)
        elif fmt == "msgpack":
            w = msgpack.packb(doc, **{"use_bin_type": True, **opts})
        else:
            w = pickle.dumps(doc, **opts)
        h.check(s == w, "the text is what the library writes for the document", detail=f"{s!r} != {w!r}")
    return run


def held_programs():
    """Members of type Any that hold values of other types."""
    sub = C("Sub", [F("s", SetT(Int())), F("u", UUID), F("o", Opt(Str()))])
    for i, t in enumerate([Opaque(), Data(sub), ListT(Data(sub)), DictT(Str(), Opaque()), SetT(Int()), ListT(SetT(Str())),
                           FrozenSetT(UUID), DATETIME, UUID, DECIMAL, E_STR, TupleT(Int(), Data(sub)), DequeT(DATE),
                           Opt(Opaque()), DictT(Str(), ListT(Data(sub))), Bool(), PATH, CounterT(Str())]):
        c = C("A", [F("x", Held(t)), F("tail", Int())])
        yield f"held{i}/{t}", c, case_for(f"held{i}", c)
    for i, t in enumerate([UnionT(Int(), Data(sub)), UnionT(Str(), UUID, Data(sub)), UnionT(Int(), SetT(Int())),
                           UnionT(Bool(), E_STR, DATETIME)]):
        for j, w in enumerate([ListT(t), DictT(Str(), t), TupleT(t, t), VarTuple(t), DequeT(t)]):
            c = C("A", [F("x", Held(w))])
            yield f"heldmix{i}/{w}", c, case_for(f"heldmix{i}_{j}", c)
    for i, t in enumerate([Opaque(), Data(sub), ListT(Data(sub)), DictT(Str(), Opaque()), SetT(Int()), ListT(SetT(Str())),
                           FrozenSetT(UUID), DATETIME, UUID, DECIMAL, E_STR, TupleT(Int(), Data(sub)), DequeT(DATE),
                           Opt(Opaque()), DictT(Str(), ListT(Data(sub))), Bool(), PATH, CounterT(Str())]):
        if i < 8:
            c = C("A", [F("x", ListT(Held(t))), F("y", DictT(Str(), Held(t))), F("z", Opt(Held(t)))])
            yield f"heldin{i}/{t}", c, case_for(f"heldin{i}", c)


def classvar_programs():
    """Class variables, which are not part of the value but can be written."""
    sub = C("Sub", [F("s", Int()), F("u", UUID)])
    base = C("Base", [F("p", Int())], classvars=[("base_v", Str()), ("over_v", Int())])
    u = UnionT(Int(), Str(), Data(sub))
    ts = [Int(), Opt(Str()), UUID, E_STR, ListT(Data(sub)), DictT(Str(), E_STR), u, SetT(Int()), DATE, ListT(u),
          TupleT(Int(), E_STR)]
    for i, t in enumerate(ts):
        c = C("A", [F("my_x", Int()), F("o", Opt(Str()))], classvars=[("my_v", t), ("w", Int())], class_var=True,
              rename_all=["camelcase", None, "kebabcase"][i % 3])
        yield f"cvar{i}/{t}", c, case_for(f"cvar{i}", c)
    c = C("A", [F("x", Int())], classvars=[("v", Int()), ("w", ListT(UUID))])
    yield "cvar/off", c, case_for("cvaroff", c)
    c = C("A", [F("x", Int())], classvars=[("over_v", Str()), ("v", ListT(UUID))], class_var=True, bases=(base,))
    yield "cvar/inherited", c, case_for("cvarinh", c)


CUSTOM_FMT = """
import json as _json
from serde.json import JsonSerializer, JsonDeserializer
class MySer(JsonSerializer):
    @classmethod
    def serialize(cls, obj, **opts):
        return ("mine", obj, opts)
class MyDe(JsonDeserializer):
    @classmethod
    def deserialize(cls, data, **opts):
        return data[1]
"""


def custom_fmt(c, fmt):
    def run(h):
        to, frm = lib(h, fmt)
        x = h.value(c.t())
        before = h.shared(x)
        s = h.ok(h.call(to, x, se=h.mod.MySer, someopt=3), "serialization succeeds")
        h.check(type(s) is tuple and s[0] == "mine" and s[2].get("someopt") == 3,
                "the caller's serializer gets the document and the options")
        h.same(s[1], c.enc(h, x, resolve(c, True, False, True, fmt == "toml")), "the serializer gets the document")
        y = h.ok(h.call(frm, h.cls(c.name), s, de=h.mod.MyDe), "deserialization succeeds")
        h.same(y, before, "round trip through the caller's serializer")
    return run


# ---- numbers: what a text format makes of a float
NUM_SRC = """
import json as _json, yaml as _yaml, tomllib as _toml, tomli_w as _tomlw, msgpack as _msgpack
from serde.json import from_json
from serde.yaml import from_yaml
from serde.toml import from_toml
from serde.msgpack import from_msgpack
WRITE = dict(json=_json.dumps, yaml=_yaml.safe_dump, toml=_tomlw.dumps, msgpack=_msgpack.packb)
READ = dict(json=from_json, yaml=from_yaml, toml=from_toml, msgpack=from_msgpack)
def write(fmt, doc):
    return WRITE[fmt](doc)
def read(fmt, cls, text, **k):
    return READ[fmt](cls, text, **k)
def as_float(v):
    return float(v)
def mark(v):
    return ("number", v)
def as_fsub(v):
    return FSub(v)
class FSub(float):
    pass
"""
NUM_KINDS = ("int", "float", "bool", "str", "none", "digits", "exp")


def number(h, kind):
    return {"int": h.int_, "float": h.float_, "bool": lambda: h.choose(2) == 1, "str": h.str_, "none": lambda: None,
            "digits": lambda: "12", "exp": lambda: "1e3"}[kind]()


def num_shapes():
    """(type, document around a number, value around a float)"""
    same = lambda n: n
    yield "float", same, lambda m, n: n
    yield "Optional[float]", same, lambda m, n: n
    yield "list[float]", lambda n: [n], lambda m, n: [n]
    yield "dict[str, float]", lambda n: {"k": n}, lambda m, n: {"k": n}
    yield "tuple[int, float]", lambda n: [1, n], lambda m, n: (1, n)
    yield "tuple[float, ...]", lambda n: [n, 2.5], lambda m, n: (n, 2.5)
    yield "S", lambda n: {"f": n}, lambda m, n: m.S(n)
    yield "Optional[list[Optional[float]]]", lambda n: [None, n], lambda m, n: [None, n]
    yield "collections.defaultdict[str, list[float]]", lambda n: {"k": [n]}, lambda m, n: collections.defaultdict(list, {"k": [n]})
    yield "Union[int, S]", lambda n: {"S": {"f": n}}, lambda m, n: m.S(n)
    yield "FSub", same, lambda m, n: m.as_fsub(n)
    yield "G[float]", lambda n: {"f": n}, lambda m, n: m.G(n)


def number_items():
    for i, (t, doc, val) in enumerate(num_shapes()):
        src = NUM_SRC + "@serde\nclass S:\n    f: float\n@serde\nclass G(Generic[T]):\n    f: T\n" \
            + f"@serde\nclass A:\n    i: int\n    x: {t}\n@serde(type_check=disabled)\nclass D:\n    i: int\n    x: {t}\n"
        case = case_for(f"num{i}", header=src)
        for kind in NUM_KINDS:
            if kind == "none" and "Optional" in t:
                continue
            for fmt in ("json", "yaml"):
                for direct in (False, True):
                    yield Item("C03", f"num/{t}/{kind}/{fmt}/{int(direct)}", case, read_number(t, doc, val, kind, fmt, direct))
            if kind in ("int", "float", "none") and t not in ("FSub",) and "G" not in t:
                for fmt in ("json", "yaml"):
                    yield Item("C03", f"num/{t}/{kind}/{fmt}/asis", case, uncoerced(t, doc, val, kind, fmt))
        for kind in ("int", "float", "str"):
            for named in (True, False):
                if named or t in ("float", "list[float]", "tuple[int, float]", "Optional[float]"):
                    yield Item("C03", f"num/{t}/{kind}/fn{int(named)}", case, own_number(t, doc, val, kind, named))


def read_number(t, doc, val, kind, fmt, direct):
    """A number where a float is declared is read as that float; in YAML numeric text is a number too."""
    def run(h):
        m = h.mod
        n = number(h, kind)
        d = doc(n) if direct else {"i": 0, "x": doc(n)}
        if direct and fmt == "json" and t == "Optional[float]" and kind == "none":
            return
        r = h.call(m.read, fmt, h.evaluate(t) if direct else m.A, h.ok(h.call(m.write, fmt, d), "the codec writes the document"))
        good = kind in ("int", "float") or fmt == "yaml" and kind in ("digits", "exp")
        if kind == "str" and fmt == "yaml":
            f = h.call(m.as_float, n)
            if type(f) is not Raised:
                h.ok(r, "numeric text is a number")
                return
        if not good:
            h.raises(r, m.SerdeError, "what is not a number is rejected")
            return
        y = h.ok(r, "a number is accepted")
        want = val(m, h.ok(h.call(m.as_float, n), "convertible"))
        h.same(y if direct else y.x, want, "the number is read as a float")
    return run


def uncoerced(t, doc, val, kind, fmt):
    """coerce_numbers=False: numbers are taken as they are, so an int is no float."""
    def run(h):
        m = h.mod
        n = number(h, kind)
        s = h.ok(h.call(m.write, fmt, {"i": 0, "x": doc(n)}), "the codec writes the document")
        r = h.call(m.read, fmt, m.A, s, coerce_numbers=False)
        if kind == "float":
            h.same(h.ok(r, "a float is accepted").x, val(m, n), "the float is read as it is")
        elif t in ("float", "Optional[float]", "S", "Union[int, S]"):
            h.raises(r, m.SerdeError, "an int is no float")
        if t not in ("S", "Union[int, S]"):
            r = h.ok(h.call(m.read, fmt, m.D, s, coerce_numbers=False), "unchecked values are accepted")
            h.same(r.x, val(m, n), "the number is read as it is")
    return run


def own_number(t, doc, val, kind, named):
    """The caller's conversion applies where a float is declared, and nowhere else."""
    def run(h):
        m = h.mod
        n = number(h, kind)
        d = {"i": 0, "x": doc(n)} if named else (0, doc(n))
        r = h.call(m.from_dict if named else m.from_tuple, m.A, d, deserialize_numbers=m.as_float)
        f = h.call(m.as_float, n)
        if type(f) is Raised:
            h.raises(r, m.SerdeError, "what the caller's conversion rejects is rejected")
            return
        y = h.ok(r, "a number is accepted")
        h.same(y.x, val(m, f), "the number is what the caller's conversion gives")
        h.same(y.i, 0, "other values are left alone")
    return run


def ext_msgpack(c):
    def run(h):
        to, frm = lib(h, "msgpack")
        x = h.value(c.t())
        before = h.shared(x)
        cls = h.cls(c.name)
        s = h.ok(h.call(to, x, ext_dict={cls: 5}), "serialization succeeds")
        y = h.ok(h.call(frm, None, s, ext_dict={5: cls}), "deserialization succeeds")
        h.same(y, before, "ext type round trip")
        h.raises(h.call(frm, None, s, ext_dict={6: cls}), h.mod.SerdeError, "unknown ext code is rejected")
        h.raises(h.call(to, x, ext_dict={int: 5}), h.mod.SerdeError, "class without ext code is rejected")
    return run


@prop("C03")
def c03(tier):
    for group, i, t, case, c in each_type(tier, lambda g, i, t: g != "d2_" or tier == "thorough" or i % 4 == 0):
        for fmt in FORMATS:
            if not fmt_ok(t, fmt):
                continue
            yield Item("C03", f"{group}{i}/{t}/{fmt}", case, fmt_roundtrip(c, fmt))
    for i, c, case in struct_cases():
        for j, fmt in enumerate(FORMATS):
            if fmt == "msgpack_tuple" and any(f.skip_serializing for f in c.fields):
                continue
            if tier == "quick" and (i + j) % 3:
                continue
            yield Item("C03", f"struct{i}/{fmt}", case, fmt_roundtrip(c, fmt, True))
            if fmt not in ("toml", "msgpack_tuple"):
                yield Item("C03", f"struct{i}/{fmt}/skip_none", case, fmt_roundtrip(c, fmt, True, {"skip_none": True}))
    for n, c, case in each_mix(tier):
        for j, fmt in enumerate(FORMATS):
            if all(fmt_ok(f.t, fmt) for f in (*c.fields, *getattr(c, 'mid_fields', ()))):
                yield Item("C03", f"{n}/{fmt}", case, fmt_roundtrip(c, fmt))
    kid = C("A", [F("x", DictT(Str(), Opaque())), F("y", ListT(Int())), F("z", Opt(DATETIME)), F("w", SetT(Str()))])
    for fmt, opts in (("json", {}), ("json", {"sort_keys": True}), ("json", {"indent": 2}),
                      ("json", {"ensure_ascii": True}), ("json", {"separators": (", ", ": ")}),
                      ("yaml", {}), ("yaml", {"sort_keys": False}), ("yaml", {"default_flow_style": True}),
                      ("toml", {}), ("toml", {"multiline_strings": True}), ("msgpack", {}),
                      ("msgpack", {"use_single_float": True}), ("pickle", {}), ("pickle", {"protocol": 2})):
        yield Item("C03", f"text/{fmt}/{sorted(opts)}", case_for("fmt_text", kid), fmt_text(kid, fmt, opts))
    for n, c, case in held_programs():
        for fmt in ("json", "yaml", "toml", "msgpack", "pickle"):
            if fmt_ok(c.fields[0].t, fmt) and "Opt" not in n:
                yield Item("C03", f"{n}/{fmt}", case, fmt_text(c, fmt, {}))
    yield from number_items()
    kc = case_for("fmt_custom", kid, header=CUSTOM_FMT)
    for fmt in ("json", "yaml", "toml", "msgpack", "pickle"):
        if fmt == "msgpack":
            continue
        yield Item("C03", f"custom/{fmt}", kc, custom_fmt(C("A", kid.fields[:2]) if False else kid, fmt))
    plain = C("A", [F("a", Int()), F("b", ListT(UUID)), F("c", Opt(Str()))])
    yield Item("C03", "msgpack_ext", case_for("fmt_ext", plain), ext_msgpack(plain))
