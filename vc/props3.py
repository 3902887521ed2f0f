"""Contract harnesses, continued: unions, flattening, transparent classes, enums and literals, generics,
the API on values that are not classes."""
from __future__ import annotations
from . import catalog, structs
from .env import Raised
from .items import Item, prop
from .props import case_for, each_type, resolve, spec_mod, struct_cases, tag, lib, OPT_MATRIX, encoding, \
    roundtrip, fmt_roundtrip, fmt_ok, FORMATS, str_key
from .props2 import Pair, struct_opts, known_names
from .types import *

X = C("X", [F("p", Int()), F("q", Str())])
Y = C("Y", [F("p", Int()), F("r", Bool())])
W = C("W", [F("p", Int()), F("q", Str())])               # the same fields as X
Z = C("Z", [F("p", Int()), F("z", Opt(Str()))])          # accepts every document of X, Y and W
XR = C("XR", [F("p_one", Int()), F("when", DATETIME)], rename_all="camelcase")
X2 = C("X2", [F("p", Int()), F("q", Str())])             # names that contain each other
XX = C("XX", [F("p", Int()), F("q", Str())])
TAGGINGS = [None, "ExternalTagging", 'InternalTagging("type")', 'InternalTagging("kind")',
            'AdjacentTagging("type", "content")', 'AdjacentTagging("t", "c")', "Untagged"]


def d(c):
    return Data(c)


# ------------------------------------------------------------------ C05: unions
def union_types():
    """(name, type, distinguishable without tags)"""
    yield "xy", UnionT(d(X), d(Y)), True
    yield "yx", UnionT(d(Y), d(X)), True
    yield "xw", UnionT(d(X), d(W)), False
    yield "wx", UnionT(d(W), d(X)), False
    yield "zxy", UnionT(d(Z), d(X), d(Y)), False
    yield "xint", UnionT(d(X), Int()), True
    yield "intx", UnionT(Int(), d(X)), True
    yield "prims", UnionT(Int(), Str(), Bool(), Float()), True
    yield "kidx", UnionT(Opaque(), d(X)), True
    yield "xkid", UnionT(d(X), Opaque()), True
    yield "xlist", UnionT(d(X), ListT(d(Y))), True
    yield "three", UnionT(Str(), d(X), ListT(Int())), True
    yield "renamed", UnionT(d(XR), d(X)), True
    yield "prefix", UnionT(d(X), d(XR), d(X2), d(XX)), False
    yield "suffix", UnionT(d(XX), d(X2), d(X)), False
    yield "opt", Opt(UnionT(d(X), d(Y))), True
    yield "optw", Opt(UnionT(d(W), d(X))), False
    yield "none", UnionT(d(X), d(W), NoneT()), False
    yield "std", UnionT(DATETIME, UUID, Int()), True
    yield "lit", UnionT(Lit("a", "b"), Int(), d(X)), True
    yield "enum", UnionT(E_INT, ListT(Str())), True
    yield "cont", UnionT(DictT(Str(), Int()), ListT(Str())), True
    yield "tup", UnionT(TupleT(Int(), Str()), Int()), True
    yield "text", UnionT(ListT(Str()), Int(), Str()), True
    yield "text1", UnionT(SetT(Str()), Str()), True
    yield "keys", UnionT(ListT(Str()), DictT(Str(), Int())), True
    yield "keys1", UnionT(SetT(Str()), d(X)), True
    yield "keys2", UnionT(VarTuple(Str()), d(X), d(Y)), True
    yield "keys3", Opt(UnionT(DequeT(Str()), d(X))), True
    yield "text2", Opt(UnionT(VarTuple(Str()), Str())), True


GEN = C("GenC", [F("v", Var()), F("l", ListT(Var()))], typevars=["T"])


def nested_union_types():
    """Arms that are containers of optionals, unions, classes and containers."""
    yield "lopt", UnionT(ListT(Opt(Int())), Str())
    yield "dun", UnionT(DictT(Str(), UnionT(Int(), Str())), Int())
    yield "ll", UnionT(ListT(ListT(d(X))), d(X))
    yield "topt", UnionT(TupleT(Opt(Int()), Str()), d(X))
    yield "vopt", UnionT(d(X), VarTuple(Opt(UUID)))
    yield "sets", UnionT(Int(), SetT(UUID), d(Y))
    yield "fset", UnionT(FrozenSetT(DATETIME), Str())
    yield "ldx", Opt(UnionT(ListT(d(X)), DictT(Str(), d(Y))))
    yield "lun", UnionT(ListT(UnionT(Int(), d(X))), Str())
    yield "deq", UnionT(DequeT(ListT(UUID)), Bool())
    yield "dd", UnionT(DictT(Str(), ListT(DATE)), ListT(DATE))
    yield "gen", UnionT(Gen(GEN, Int()), Str())
    yield "lgen", UnionT(ListT(Gen(GEN, UUID)), Int())
    yield "alias", UnionT(Alias695("AlU", ListT(Opt(d(X)))), Int())
    yield "any", UnionT(ListT(AnyT()), Int())


POS = {
    "field": lambda u: u,
    "list": lambda u: ListT(u),
    "dict": lambda u: DictT(Str(), u),
    "tuple": lambda u: TupleT(u, Int()),
    "optlist": lambda u: Opt(ListT(u)),
    "vartuple": lambda u: VarTuple(u),
    "deque": lambda u: DequeT(u),
    "listlist": lambda u: ListT(ListT(u)),
    "defaultdict": lambda u: DefaultDictT(Str(), ListT(u), list),
}


def wire_decode(c, named=True):
    def run(h):
        x = h.value(c.t())
        before = h.shared(x)
        o = struct_opts(c, named)
        doc = c.wire(h, x, o) if named else c.enc(h, x, o)
        y = h.ok(h.call(h.mod.from_dict if named else h.mod.from_tuple, h.cls(c.name), doc, reuse_instances=o.reuse),
                 "the documented representation is read back")
        h.same(y, before, "decoding picks the arm that was encoded")
    return run


def union_value(h, u, v):
    """Union of classes -> name of the class of v, or None."""
    for t in u.ts:
        if isinstance(t, (Data, Opaque)) and h.isa(v, t):
            return t.spec.name if isinstance(t, Data) else t.name
    return None


def tag_soundness(c, u, tagging):
    """A document naming one arm is never decoded as another one, nor accepted with a missing or wrong tag."""
    t = (tagging or "ExternalTagging").replace(" ", "")
    body = WildDoc([("p", AnyOf(Int(), Str())), ("q", AnyOf(Str(), NoneT())), ("r", Bool())])
    name = AnyOf(Fixed("X"), Fixed("Y"), Str(), Int(), NoneT())

    def run(h):
        b = h.value(body)
        n = h.value(name) if not t.startswith("External") else None
        if t.startswith("External"):
            named = ["?", "X", "Y", "x", 1, None][h.pick(6)]
            doc = {named: b}
            if named == "?":
                doc = h.value(Extras(["X", "Y"], body, True))
        elif t.startswith("Internal"):
            k = t[len("InternalTagging"):].strip("()'\"")
            doc = {}
            if h.pick(2):
                doc[k] = n
                named = n
            else:
                doc["other"] = n
                named = None
            for f, v in b.items():
                doc[f] = v
        else:
            k, ct = [a.strip("'\"") for a in t[len("AdjacentTagging"):].strip("()").split(",")]
            doc = {}
            named = None
            if h.pick(2):
                doc[k] = n
                named = n
            if h.pick(2):
                doc[ct] = b
            else:
                doc["other"] = b
                named = None
        y = h.call(h.mod.from_dict, h.cls(c.name), {"x": doc, "tail": 1})
        if type(y) is Raised:
            h.raises(y, h.mod.SerdeError, "a document of no arm is rejected with SerdeError")
            return
        got = union_value(h, u, y.x)
        h.check(named is not None and bool(named == got),
                "the arm is the one that the tag names", detail=f"tag {named!r} gave {y.x!r}")
        for f in u.ts[[a.spec.name for a in u.ts].index(got)].spec.all_fields():
            h.same(getattr(y.x, f.name), b[f.name], "the fields come from the tagged document")
    return run


class Fixed(T):
    def __init__(self, v):
        self.v = v

    def src(self): return "Any"
    def gen(self, h): return self.v
    def enc(self, h, v, o): return v


def untagged_first(c, u):
    """Untagged: the first arm, in declared order, that accepts the document."""
    body = WildDoc([("p", AnyOf(Int(), Str())), ("q", AnyOf(Str(), Int())), ("r", AnyOf(Bool(), Str())),
                    ("z", AnyOf(Str(), NoneT(), Int()))])

    def run(h):
        b = h.value(body)
        y = h.call(h.mod.from_dict, h.cls(c.name), {"x": b, "tail": 1})
        want = None
        for t in u.ts:
            ok = True
            for f in t.spec.all_fields():
                if f.name in b:
                    ok = ok and h.isa(b[f.name], f.t)
                else:
                    ok = ok and isinstance(f.t, Opt)
            if ok:
                want = t
                break
        if want is None:
            h.raises(y, h.mod.SerdeError, "a document that no arm accepts is rejected")
            return
        y = h.ok(y, "a document that an arm accepts is accepted")
        h.check(type(y.x) is h.cls(want.spec.name), "the first arm that accepts the document",
                detail=f"{y.x!r} instead of {want}")
        for f in want.spec.all_fields():
            h.same(getattr(y.x, f.name), b[f.name] if f.name in b else None, "its fields come from the document")
    return run


def arm_order(c, u):
    """Arms that are not classes: the first one that the value inhabits; a value of no arm is rejected."""
    def run(h):
        w = h.value(AnyOf(Int(), Str(), Bool(), Float(), NoneT(), ListT(Int()), DictT(Str(), Int())))
        y = h.call(h.mod.from_dict, h.cls(c.name), {"x": w, "tail": 1})
        if any(h.isa(w, t) for t in u.ts):
            y = h.ok(y, "a value of an arm is accepted")
            h.same(y.x, w, "the value is stored as it is")
        else:
            h.raises(y, h.mod.SerdeError, "a value of no arm is rejected")
    return run


def serialize_outside(c, u):
    """Serializing a value of no arm fails with SerdeError."""
    def run(h):
        w = h.value(AnyOf(Float(), ListT(Int()), DictT(Str(), Int()), NoneT(), DATETIME))
        h.assume(not any(h.isa(w, t) for t in u.ts))
        o = object.__new__(h.cls(c.name))
        o.x, o.tail = w, 1
        h.raises(h.call(h.mod.to_dict, o), h.mod.SerdeError, "a value of no arm is not serializable")
    return run


def direct_union(u, tagging, fmt):
    """The union passed to the API itself, with or without a tagging wrapper."""
    def run(h):
        m = h.mod
        v = h.value(u)
        typ = h.evaluate(u.src())
        if tagging is not None:
            k = tagging.rstrip(")")
            sep = ", " if "(" in tagging else "("
            typ = h.evaluate(f"{k}{sep}{u.src()})")
        o = Opts(True, False, False, False)
        h.cur_class = C("_", [], tagging=tagging)
        before = h.shared(v)
        if fmt == "dict":
            want = u.enc(h, v, Opts(True, False, False, False))
            r = h.ok(h.call(m.to_dict, v, c=typ, reuse_instances=False, convert_sets=False), "serialization succeeds")
            h.same(r, want, "the documented representation of the union")
            y = h.ok(h.call(m.from_dict, typ, want, reuse_instances=False), "deserialization succeeds")
        else:
            to, frm = lib(h, fmt)
            s = h.ok(h.call(to, v, cls=typ), "serialization succeeds")
            y = h.ok(h.call(frm, typ, s), "deserialization succeeds")
        h.same(y, before, "decoding picks the arm that was encoded")
    return run


def nested_tagging():
    for outer in TAGGINGS:
        for inner in TAGGINGS:
            mid = C("Mid", [F("y", UnionT(d(X), Int())), F("l", UnionT(d(Y), Str()))], tagging=inner)
            yield outer, inner, C("A", [F("x", UnionT(d(mid), d(X))), F("tail", Int())], tagging=outer)


@prop("C05")
def c05(tier):
    for ti, tg in enumerate(TAGGINGS):
        for n, u, plain in union_types():
            pos = list(POS) if n in ("xy", "xint", "kidx", "opt") or tier == "thorough" else ["field", "list", "dict"]
            for p in pos:
                if n == "none" and p != "field":
                    continue
                c = C("A", [F("x", POS[p](u)), F("tail", Int())], tagging=tg)
                case = case_for(f"un{ti}_{n}_{p}", c)
                for named in (True, False):
                    for reuse, sets in ((None, None), (False, True)):
                        yield Item("C05", f"{ti}/{n}/{p}/enc{int(named)}{tag(reuse)}{tag(sets)}", case,
                                   encoding(c, named, reuse, sets))
                    if tg == "Untagged" and not plain:
                        continue
                    yield Item("C05", f"{ti}/{n}/{p}/rt{int(named)}", case, roundtrip(c, named, None, None))
                    yield Item("C05", f"{ti}/{n}/{p}/de{int(named)}", case, wire_decode(c, named))
                if tg == "Untagged" and not plain:
                    continue
                for fmt in ("json", "msgpack", "yaml", "toml"):
                    if p in ("field", "list") and fmt_ok(c.fields[0].t, fmt) and n not in ("cont", "std"):
                        yield Item("C05", f"{ti}/{n}/{p}/{fmt}", case, fmt_roundtrip(c, fmt))
        for n, u, plain in union_types():
            c = C("A", [F("x", u), F("tail", Int())], tagging=tg)
            case = case_for(f"un{ti}_{n}_field", c)
            if n in ("xy", "yx") and tg != "Untagged":
                yield Item("C05", f"{ti}/{n}/sound", case, tag_soundness(c, u, tg))
            if n in ("xy", "yx", "xw", "wx", "zxy") and tg == "Untagged":
                yield Item("C05", f"{ti}/{n}/first", case, untagged_first(c, u))
            if n == "prims":
                yield Item("C05", f"{ti}/{n}/arms", case, arm_order(c, u))
            if n in ("xy", "xint", "std", "enum", "lit"):
                yield Item("C05", f"{ti}/{n}/outside", case, serialize_outside(c, u))
            if tg == "Untagged" and not plain or isinstance(u, Opt) or n in ("none", "std"):
                continue
            dcase = case_for(f"und_{n}", C("Dummy", [F("x", u)]))
            for fmt in ("dict", "json", "msgpack", "yaml"):
                if fmt == "dict" or fmt_ok(u, fmt) and n not in ("std", "cont"):
                    yield Item("C05", f"{ti}/{n}/direct/{fmt}", dcase, direct_union(u, tg, fmt))
    for n, u in nested_union_types():
        for tg in (None, "Untagged", 'InternalTagging("type")'):
            ti = TAGGINGS.index(tg)
            for p in ("field", "list", "dict"):
                if p == "dict" and tg is not None:
                    continue
                c = C("A", [F("x", POS[p](u)), F("tail", Int())], tagging=tg)
                case = case_for(f"unest{ti}_{n}_{p}", c)
                yield Item("C05", f"{ti}/{n}/{p}/nenc", case, encoding(c, True, None, None))
                yield Item("C05", f"{ti}/{n}/{p}/nencr", case, encoding(c, True, True, True))
                for named in (True, False):
                    yield Item("C05", f"{ti}/{n}/{p}/nrt{int(named)}", case, roundtrip(c, named, None, None))
                yield Item("C05", f"{ti}/{n}/{p}/nde", case, wire_decode(c, True))
                if p == "field":
                    for fmt in ("json", "yaml"):
                        if fmt_ok(u, fmt):
                            yield Item("C05", f"{ti}/{n}/{p}/n{fmt}", case, fmt_roundtrip(c, fmt))
    for outer, inner, c in nested_tagging():
        case = case_for(f"unn_{outer}_{inner}", c)
        i, j = TAGGINGS.index(outer), TAGGINGS.index(inner)
        yield Item("C05", f"nested/{i}{j}/enc", case, encoding(c, True, None, None))
        yield Item("C05", f"nested/{i}{j}/rt", case, roundtrip(c, True, None, None))
        yield Item("C05", f"nested/{i}{j}/de", case, wire_decode(c))
        yield Item("C05", f"nested/{i}{j}/tuple", case, roundtrip(c, False, None, None))
