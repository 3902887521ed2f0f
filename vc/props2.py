"""Contract harnesses, continued: type checking, missing fields, naming, omission, unknown keys,
error discipline."""
from __future__ import annotations
from . import catalog, structs
from .env import Raised
from .items import Item, prop
from .props import case_for, each_type, resolve, spec_mod, struct_cases, tag, lib, OPT_MATRIX
from .types import *

PRIM = (Int, Str, Float, Bool)
WIDE = ("int", "str", "float", "bool", "none", "list", "dict", "tuple", "bytes", "datetime", "uuid", "idict")


def struct_opts(c, named=True):
    return resolve(c, named, None, None, False)


def known_names(c):
    out = []
    for f in c.all_fields():
        out += [c.key(f), *f.alias]
    return out


def near_names(c, n=6):
    """Names that resemble accepted ones without being accepted."""
    from .types import CASES
    known = known_names(c)
    fs = c.all_fields()
    out = [f.name for f in fs] + [f"__{fs[0].name}", f"{known[0]} ", known[-1].swapcase(), "__serde_transparent__", ""]
    for f in fs[:2]:
        out += [CASES[k](f.name) for k in ("camelcase", "kebabcase", "snakecase") if k in CASES]
    return [x for x in dict.fromkeys(out) if x not in known][:n]


# ------------------------------------------------------------------ C06: strict type checking
def strict_decode(c, t, wild, named=True):
    def run(h):
        m = h.mod
        w = h.value(wild)
        doc = {"x": w, "tail": 1} if named else (w, 1)
        before = h.shared(doc)
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), doc)
        h.same(doc, before, "the document is not modified")
        if type(y) is Raised:
            h.raises(y, m.SerdeError, "a rejected document raises SerdeError")
            if isinstance(t, PRIM):
                h.check(not h.isa(w, t), "a value of the declared type is accepted")
            return
        h.check(type(y) is h.cls(c.name), "the result is an instance of the class")
        h.check(h.isa(y.x, t), "an accepted field value is of its declared type",
                detail=f"{y.x!r} in a field of type {t}")
        if isinstance(t, PRIM):
            h.same(y.x, w, "strict mode stores the value itself")
    return run


def strict_format(c, t, wild, fmt):
    """The same through a format, whose numbers may be written without a decimal point."""
    def run(h):
        import json, msgpack, yaml, tomli_w
        to, frm = lib(h, fmt)
        w = h.value(wild)
        doc = {"x": w, "tail": 1}
        s = h.text(fmt, doc)
        y = h.call(frm, h.cls(c.name), s)
        if type(y) is Raised:
            h.raises(y, h.mod.SerdeError, "a rejected document raises SerdeError")
            if isinstance(t, PRIM):
                h.check(not h.isa(w, t), "a value of the declared type is accepted")
            return
        h.check(h.isa(y.x, t), "an accepted field value is of its declared type",
                detail=f"{y.x!r} in a field of type {t}")
        if isinstance(t, (Int, Str, Bool)):
            h.same(y.x, w, "strict mode stores the value itself")
        if isinstance(t, Float) and not h.isa(w, Str()):
            h.same(y.x, h.num(w), "a number is stored as the float of the same value")
    return run


def construct(c, t, wild):
    def run(h):
        w = h.value(wild)
        y = h.call(h.cls(c.name), w, 1)
        ok = h.isa(w, t)
        if type(y) is Raised:
            h.raises(y, h.mod.SerdeError, "a rejected argument raises SerdeError")
            h.check(not ok, "the constructor accepts a value of the declared type", detail=f"{w!r} for {t}")
            return
        h.check(ok, "the constructor rejects a value of another type", detail=f"{w!r} accepted for {t}")
        h.check(y.x is w, "the constructor stores the value itself")
    return run


def strict_types():
    L = [t for t in catalog.leaves() + catalog.more_leaves() if not isinstance(t, (Opaque, AnyT))]
    small = [Int(), Str(), Float(), Bool(), UUID, DATETIME, E_STR, E_INT, Lit(1, "a"), Data(catalog.SMALL)]
    out = list(L)
    out += [Opt(t) for t in small]
    out += [TupleT(t, Int()) for t in small[:6]] + [TupleT(Str(), Opt(Int()))]
    out += [UnionT(Int(), Str()), UnionT(Float(), Str()), UnionT(UUID, Int()), UnionT(Data(catalog.SMALL), Int()),
            Opt(UnionT(Int(), Str())), UnionT(E_STR, Int()), UnionT(Lit("a"), Int()), UnionT(ListT(Int()), Str()),
            UnionT(Bool(), Str())]
    out += [ListT(Int()), DictT(Str(), Int()), SetT(Str()), VarTuple(Int()), DequeT(Int()), FrozenSetT(Int()),
            CounterT(Str()), DefaultDictT(Str(), Int(), int), SeqT(Int()), MappingT(Str(), Int()),
            Alias695("Al", Int()), Alias695("Al", Opt(Str())),
            Opt(ListT(Int())), Opt(DictT(Str(), Int()))]
    return out


def wild_for(t, fmt=False):
    """Arbitrary plain data, plus data shaped like a document of the type."""
    base = Wild(1, WIDE if not fmt else ("int", "str", "float", "bool", "none", "list", "dict") if fmt != "toml" else
                ("int", "str", "float", "bool", "list", "dict"), keys_of(t))
    if isinstance(t, Data):
        return AnyOf(base, WildDoc([(f.name, Wild(0, base.kinds)) for f in t.spec.all_fields()]))
    if isinstance(t, UnionT) and any(isinstance(x, Data) for x in t.ts):
        d = [x for x in t.ts if isinstance(x, Data)][0]
        return AnyOf(base, WildDoc([(d.spec.name, wild_for(d, fmt))]))
    if isinstance(t, TupleT):
        return AnyOf(base, Pair(*[Wild(0, base.kinds) for _ in t.ts]), Pair(*[Wild(0, base.kinds) for _ in t.ts], Wild(0, base.kinds)))
    if isinstance(t, Opt):
        return wild_for(t.t, fmt)
    return base


def keys_of(t):
    """The document keys a decoder of t may look up."""
    if isinstance(t, Data):
        return [f.name for f in t.spec.all_fields()]
    if isinstance(t, UnionT):
        return [k for x in t.ts for k in ([x.spec.name] if isinstance(x, Data) else [])]
    if isinstance(t, (Opt, Alias695)):
        return keys_of(t.t)
    return []


class Pair(T):
    """A list of exactly these."""
    hashable = False

    def __init__(self, *ts):
        self.ts = ts

    def src(self): return "Any"
    def gen(self, h): return [t.gen(h) for t in self.ts]


class ArgFor(T):
    """A constructor argument: arbitrary data or a value of the type."""
    hashable = False

    def __init__(self, t):
        self.t = t

    def src(self): return "Any"

    def gen(self, h):
        return self.t.gen(h) if h.choose(2) else Wild(1, WIDE).gen(h)


def strict_struct(c, fi):
    """Any one field of a valid document replaced by arbitrary data."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        f = c.de_fields()[fi]
        w = h.value(Wild(1, keys=keys_of(f.t)))
        doc[c.key(f)] = w
        y = h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse)
        if type(y) is Raised:
            h.raises(y, m.SerdeError, "a rejected document raises SerdeError")
            if isinstance(f.t, PRIM):
                h.check(not h.isa(w, f.t), "a value of the declared type is accepted")
            return
        v = getattr(y, f.name)
        h.check(h.isa(v, f.t), "an accepted field value is of its declared type", detail=f"{v!r} for {f.t}")
        if isinstance(f.t, PRIM):
            h.same(v, w, "strict mode stores the value itself")
    return run


@prop("C06")
def c06(tier):
    for i, t in enumerate(strict_types()):
        c = C("A", [F("x", t), F("tail", Int())])
        case = case_for(f"ty{i}", c)
        yield Item("C06", f"{i}/{t}/dict", case, strict_decode(c, t, wild_for(t)))
        yield Item("C06", f"{i}/{t}/tuple", case, strict_decode(c, t, wild_for(t), False))
        if not isinstance(t, (ListT, DictT, SetT, CounterT)) and not \
                (isinstance(t, Opt) and isinstance(t.t, (ListT, DictT))) and not \
                (isinstance(t, UnionT) and any(isinstance(x, ListT) for x in t.ts)):
            yield Item("C06", f"{i}/{t}/init", case, construct(c, t, ArgFor(t)))
        for fmt in ("json", "msgpack", "yaml", "toml"):
            if fmt == "toml" and isinstance(t, NoneT):
                continue
            yield Item("C06", f"{i}/{t}/{fmt}", case, strict_format(c, t, wild_for(t, fmt), fmt))
    for i, c, case in struct_cases():
        if c.type_check:
            continue
        for j, f in enumerate(c.de_fields()):
            if f.deserializer or f.name in ("mid_val",):
                continue
            yield Item("C06", f"struct{i}/{f.name}", case, strict_struct(c, j))


# ------------------------------------------------------------------ C07: coerce / disabled
def coerced(h, t, w):
    """Documented coercion: the declared type called on the value; None only where Optional."""
    if isinstance(t, Opt):
        return None if w is None else coerced(h, t.t, w)
    if isinstance(t, ListT):
        return spec_mod().each(h, coerced, t.t, w)
    if isinstance(t, DictT):
        return spec_mod().each_value(h, coerced, t.v, w)
    if isinstance(t, TupleT):
        return tuple([coerced(h, x, w[i]) for i, x in enumerate(t.ts)])
    if w is None:
        raise ValueError("None")
    return spec_mod().convert(t.src(), w)


SCAL = Wild(0)


def coerce_wild(t):
    if isinstance(t, Opt):
        return AnyOf(NoneT(), coerce_wild(t.t))
    if isinstance(t, DictT):
        return DictT(Str(), coerce_wild(t.v))
    if isinstance(t, ListT):
        return ListT(coerce_wild(t.t))
    if isinstance(t, TupleT):
        return Pair(*[SCAL for _ in t.ts])
    return SCAL


def coerce_types():
    P = [Int(), Str(), Float(), Bool()]
    return P + [Opt(t) for t in P] + [ListT(t) for t in P] + [DictT(Str(), t) for t in P] + \
        [TupleT(t, Str()) for t in P] + [ListT(Opt(Int())), Opt(ListT(Int())), DictT(Str(), ListT(Float()))]


def coerce_decode(c, t, named):
    def run(h):
        m = h.mod
        w = h.value(coerce_wild(t))
        doc = {"x": w, "tail": 1} if named else (w, 1)
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), doc)
        want = h.call(coerced, h, t, w)
        if type(want) is Raised:
            h.raises(y, m.SerdeError, "an incompatible value is rejected with SerdeError")
            return
        y = h.ok(y, "a compatible value is accepted")
        h.same(y.x, want, "the value is converted by the declared type")
    return run


def coerce_encode(c, t, named):
    def run(h):
        m = h.mod
        w = h.value(coerce_wild(t))
        if isinstance(t, TupleT):
            w = tuple(w)
        x = h.ok(h.call(h.cls(c.name), w, 1), "the constructor does not check")
        h.check(x.x is w, "the constructor stores the value itself")
        r = h.call(m.to_dict if named else m.to_tuple, x)
        want = h.call(coerced, h, t, w)
        if type(want) is Raised:
            h.raises(r, m.SerdeError, "an incompatible value is rejected with SerdeError")
            return
        r = h.ok(r, "a compatible value is accepted")
        h.same(r["x"] if named else r[0], want, "the value is converted by the declared type")
    return run


def disabled_decode(c, t, named):
    def run(h):
        m = h.mod
        w = h.value(coerce_wild(t))
        doc = {"x": w, "tail": "any"} if named else (w, "any")
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), doc), "no check is made")
        h.same(y.x, tuple(w) if isinstance(t, TupleT) else w, "the value is stored as it is")
        h.same(y.tail, "any", "the value is stored as it is")
    return run


def disabled_encode(c, t, named):
    def run(h):
        m = h.mod
        w = h.value(coerce_wild(t))
        if isinstance(t, TupleT):
            w = tuple(w)
        x = h.ok(h.call(h.cls(c.name), w, "any"), "the constructor does not check")
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x), "no check is made")
        h.same(r["x"] if named else r[0], w, "the value is written as it is")
    return run


def coerce_struct(c, fi):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        f = c.de_fields()[fi]
        w = h.value(SCAL)
        if isinstance(f.t, Opt):
            h.assume(w is not None)
        doc[c.key(f)] = w
        y = h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse)
        want = w if c.type_check == "disabled" else h.call(coerced, h, f.t, w)
        if type(want) is Raised:
            h.raises(y, m.SerdeError, "an incompatible value is rejected with SerdeError")
            return
        y = h.ok(y, "a compatible value is accepted")
        h.same(getattr(y, f.name), want, "the value is converted by the declared type")
    return run


@prop("C07")
def c07(tier):
    for i, t in enumerate(coerce_types()):
        for mode in ("coerce", "disabled"):
            c = C("A", [F("x", t), F("tail", Int())], type_check=mode)
            case = case_for(f"{mode}{i}", c)
            de, se = (coerce_decode, coerce_encode) if mode == "coerce" else (disabled_decode, disabled_encode)
            for named in (True, False):
                yield Item("C07", f"{mode}/{i}/{t}/de{int(named)}", case, de(c, t, named))
                yield Item("C07", f"{mode}/{i}/{t}/se{int(named)}", case, se(c, t, named))
    for i, c, case in struct_cases():
        if not c.type_check:
            continue
        for j, f in enumerate(c.de_fields()):
            p = f.t.t if isinstance(f.t, Opt) else f.t
            if f.deserializer or not isinstance(p, (Int, Str, Float, Bool)):
                continue
            yield Item("C07", f"struct{i}/{f.name}", case, coerce_struct(c, j))


# ------------------------------------------------------------------ C08: missing fields
def pick_present(h, fields):
    return [f.name for f in fields if h.pick(2) == 1]


def missing(c):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        fs = c.de_fields()
        present = pick_present(h, fs)
        for f in fs:
            if f.name not in present:
                del doc[c.key(f)]
        want = spec_mod().restored(h, c, x, present)
        y = h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse)
        if want is None:
            first = [f for f in fs if f.name not in present and not f.has_default() and not isinstance(f.t, Opt)][0]
            h.raises(y, m.SerdeError, "a missing required field is reported",
                     contains=[f"'{c.key(first)}'"])
            return
        y = h.ok(y, "fields with a default may be absent")
        h.same(y, want, "absent fields get their default, present ones their value")
        z = h.ok(h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse), "deserialization is repeatable")
        for f in c.all_fields():
            if f.factory is not None and (f.name not in present) and type(getattr(y, f.name)) in (list, dict, set):
                h.check(getattr(y, f.name) is not getattr(z, f.name), "a default factory value is not shared")
        h.same(z, want, "the same document gives the same value again")
    return run


def missing_type(c, t):
    """A field of type t with no default: required unless Optional."""
    def run(h):
        m = h.mod
        tail = h.value(Int())
        y = h.call(m.from_dict, h.cls(c.name), {"tail": tail})
        nullable = isinstance(t, UnionT) and any(isinstance(a, NoneT) for a in t.ts)
        if isinstance(t, Opt) or nullable:
            y = h.ok(y, "an Optional field may be absent")
            h.check(y.x is None, "an absent Optional field is None")
            h.same(y.tail, tail, "present fields keep their value")
        else:
            h.raises(y, m.SerdeError, "a missing required field is reported", contains=["'x'"])
        if nullable:
            return
        for bad in ({}, {"x": None}, {"other": 1}):
            h.raises(h.call(m.from_dict, h.cls(c.name), bad), m.SerdeError, "a missing required field is reported")
    return run


@prop("C08")
def c08(tier):
    for i, c, case in struct_cases():
        yield Item("C08", f"struct{i}", case, missing(c))
    for group, i, t, case, c in each_type(tier, lambda g, i, t: g != "d2_" or i % 3 == 0 or tier == "thorough"):
        if isinstance(t, (NoneT, AnyT)):
            continue
        yield Item("C08", f"{group}{i}/{t}", case, missing_type(c, t))


# ------------------------------------------------------------------ C09: names
NAMES = ["a", "foo_bar", "int_field_value", "x_one", "already", "foo_bar_baz", "http_url"]


MORE_CASES = ["lowercase", "uppercase", "capitalcase", "sentencecase", "titlecase", "alphanumcase"]


def names_class(ra, style):
    fs = []
    for i, n in enumerate(NAMES):
        t = [Int(), Str(), UUID, Opaque(), Opt(Int()), ListT(Str()), Bool()][i]
        kw = {}
        if style == "rename" and i % 2:
            kw["rename"] = f"{n}.renamed {i}"
        if style == "alias":
            kw["alias"] = [f"{n}_alt", f"{n}Old"]
        if style == "both" and i % 2 == 0:
            kw["rename"] = f"R{i}"
            kw["alias"] = [f"{n}_alt"]
        if style == "meta" and i % 2:
            kw["rename"] = f"M-{i}"
            kw["meta"] = True
        fs.append(F(n, t, **kw))
    return C("A", fs, rename_all=ra)


def naming(c):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        r = h.ok(h.call(m.to_dict, x), "serialization succeeds")
        want = c.enc(h, x, o)
        h.check(list(r.keys()) == [c.key(f) for f in c.all_fields() if c.key(f) in want],
                "the document uses the documented names", detail=f"{list(r.keys())}")
        h.same(r, want, "every value is stored under its field's name")
        y = h.ok(h.call(m.from_dict, h.cls(c.name), c.wire(h, x, o)), "the documented names are read back")
        h.same(y, x, "every value is read from its field's name")
        for f in c.de_fields():
            if c.key(f) == f.name or f.name in f.alias or isinstance(f.t, Opt) or f.has_default():
                continue
            doc = c.wire(h, x, o)
            doc[f.name] = doc.pop(c.key(f))
            h.raises(h.call(m.from_dict, h.cls(c.name), doc), m.SerdeError,
                     "the Python name of a renamed field is not its document name")
    return run


def aliases(c, named=True):
    """Any subset of the primary name and the aliases of one field present: the primary name wins, then the
    aliases in declared order."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        fs = [f for f in c.de_fields() if f.alias]
        f = fs[h.pick(len(fs))]
        doc = c.wire(h, x, o)
        primary = doc.pop(c.key(f))
        names = [c.key(f)] + list(f.alias)
        chosen = None
        order = list(names)
        if h.pick(2):
            order.reverse()          # the order of keys in the document does not matter
        vals = {}
        for n in names:
            if h.pick(2):
                vals[n] = h.value(f.t) if n != c.key(f) else getattr(x, f.name)
        for n in order:
            if n in vals:
                doc[n] = c.enc_field(h, f, vals[n], o)
        chosen = [n for n in names if n in vals]
        present = [g.name for g in c.de_fields() if g is not f or chosen]
        if chosen:
            object.__setattr__(x, f.name, vals[chosen[0]])
        want = spec_mod().restored(h, c, x, present)
        y = h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse)
        if want is None:
            h.raises(y, m.SerdeError, "no name of a required field present")
            return
        y = h.ok(y, "a field is found under any of its names")
        h.same(y, want, "the primary name wins, then the aliases in order")
    return run


def ser_alias(c):
    def run(h):
        x = h.value(c.t())
        r = h.ok(h.call(h.mod.to_dict, x), "serialization succeeds")
        for f in c.all_fields():
            for a in f.alias:
                if a != c.key(f):
                    h.check(a not in r, "aliases are not written")
    return run


@prop("C09")
def c09(tier):
    for ra in structs.RENAMES + MORE_CASES:
        for style in ("none", "rename", "alias", "both", "meta"):
            c = names_class(ra, style)
            case = case_for(f"nm_{ra}_{style}", c)
            yield Item("C09", f"names/{ra}/{style}", case, naming(c))
            if style in ("alias", "both"):
                yield Item("C09", f"alias/{ra}/{style}", case, aliases(c))
                yield Item("C09", f"noalias/{ra}/{style}", case, ser_alias(c))
    for i, c, case in struct_cases():
        yield Item("C09", f"struct{i}", case, struct_names(c))
        if any(f.alias for f in c.de_fields()):
            yield Item("C09", f"struct{i}/alias", case, aliases(c))


def struct_names(c):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        r = h.ok(h.call(m.to_dict, x), "serialization succeeds")
        names = {c.key(f) for f in c.all_fields()}
        for k in list(r.keys()):
            h.check(k in names, "only documented names are written", detail=f"{k!r}")
        h.same(r, c.enc(h, x, o), "every value is stored under its field's name")
        y = h.ok(h.call(m.from_dict, h.cls(c.name), c.wire(h, x, o), reuse_instances=o.reuse),
                 "the documented names are read back")
        want = spec_mod().restored(h, c, x, [f.name for f in c.de_fields()])
        h.same(y, want, "every value is read from its field's name")
    return run


# ------------------------------------------------------------------ C10: omission
def omission(c, skip_none, reuse):
    """Exactly the fields the options say are absent from the document, and nothing else changes."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = resolve(c, True, reuse, None, skip_none)
        r = h.ok(h.call(m.to_dict, x, reuse_instances=reuse, skip_none=skip_none), "serialization succeeds")
        h.same(r, c.enc(h, x, o), "exactly the fields that the options omit are absent", order=True)
    return run


def ignored_input(c):
    """Input for a field that is not read is ignored; a write-only-skipped field is read."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        dead = [f for f in c.all_fields() if f not in c.de_fields()]
        h.assume(not c.deny or not dead)
        for f in dead:
            doc[c.key(f)] = h.value(Wild(0))
        y = h.ok(h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse), "deserialization succeeds")
        want = spec_mod().restored(h, c, x, [f.name for f in c.de_fields()])
        h.same(y, want, "input for a skipped field is ignored, all other input is read")
    return run


@prop("C10")
def c10(tier):
    for i, c, case in struct_cases():
        for sn in (False, True):
            for reuse in ((None,) if tier == "quick" else (None, True, False)):
                yield Item("C10", f"struct{i}/se{int(sn)}{tag(reuse)}", case, omission(c, sn, reuse))
        if not (c.deny and len(c.de_fields()) != len(c.all_fields())):
            yield Item("C10", f"struct{i}/de", case, ignored_input(c))
    for i, c in enumerate(skip_classes()):
        case = case_for(f"skip{i}", c)
        for sn in (False, True):
            yield Item("C10", f"skip{i}/{sn}", case, omission(c, sn, None))
    for i, c in enumerate(converted_classes()):
        case = case_for(f"conv{i}", c)
        for sn in (False, True):
            yield Item("C10", f"conv{i}/{sn}", case, omission(c, sn, None))


def skip_classes():
    """Every omission option on every field type, with and without a class option."""
    for tn, (mk, dflt, fac, pred) in structs.TYPES.items():
        for k, (sin, sid) in enumerate([(False, False), (True, False), (False, True), (True, True)]):
            fs = []
            for j, sk in enumerate([{}, {"skip_if": pred}, {"skip_if_false": True}, {"skip_if_none": True},
                                    {"skip_if_none": False}, {"skip_if_default": True}, {"skip_if_default": False},
                                    {"skip": True}, {"skip_serializing": True}, {"skip_deserializing": True}]):
                kw = dict(sk)
                if dflt is not None and (j + k) % 2 == 0:
                    kw["default"] = dflt
                else:
                    kw["factory"] = fac
                fs.append(F(f"f{j}", mk(), **kw))
                if len(fs) == 5:
                    yield C("A", [F("h", Int())] + fs, skip_if_none=sin, skip_if_default=sid)
                    fs = []


def converted_classes():
    """Every omission option next to a serializer whose output is None or falsy where the value is not."""
    from .types import empty_if_none, none_if_empty
    sers = [("lambda v: v or None", lambda h, v: none_if_empty(v)), ("lambda v: '' if v is None else v", lambda h, v: empty_if_none(v)),
            ("lambda v: None", lambda h, v: None), ("lambda v: 0", lambda h, v: 0)]
    for i, ser in enumerate(sers):
        for k, (sin, sid) in enumerate([(False, False), (True, False), (False, True)]):
            fs = [F("h", Int())]
            for j, sk in enumerate([{}, {"skip_if_none": True}, {"skip_if_default": True}, {"skip_if_false": True},
                                    {"skip_if": ("lambda v: v is None", lambda v: v is None)}]):
                fs.append(F(f"f{j}", Opt(Str()), default=["None", "''", "'d'"][(i + j + k) % 3], serializer=ser,
                            deserializer=("lambda v: v", None), **sk))
            yield C("A", fs, skip_if_none=sin, skip_if_default=sid)


# ------------------------------------------------------------------ C12: unknown keys
def unknown(c, near=False):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        want = spec_mod().restored(h, c, x, [f.name for f in c.de_fields()])
        y = h.ok(h.call(m.from_dict, h.cls(c.name), dict(doc), reuse_instances=o.reuse), "known keys are accepted")
        h.same(y, want, "known keys are read")
        # keys of fields that are written, or declared, but not read
        unread = [c.key(f) for f in c.all_fields() if f.name not in {g.name for g in c.de_fields()} and not f.flatten]
        if unread and not near:
            own = dict(doc)
            for k in unread:
                own[k] = h.int_()
            y = h.ok(h.call(m.from_dict, h.cls(c.name), own, reuse_instances=o.reuse),
                     "the keys of fields that are not read are known")
            h.same(y, want, "and ignored")
        ex = h.value(Near(near_names(c), Int()) if near else Extras(known_names(c), Wild(0), some=True))
        full = spec_mod().merged(doc, ex) if h.pick(2) else spec_mod().merged(ex, doc)
        z = h.call(m.from_dict, h.cls(c.name), full, reuse_instances=o.reuse)
        if c.deny:
            h.raises(z, m.SerdeError, "an unknown key is rejected")
        else:
            z = h.ok(z, "unknown keys are ignored")
            h.same(z, want, "unknown keys change nothing")
    return run


@prop("C12")
def c12(tier):
    for i, c, case in struct_cases():
        yield Item("C12", f"struct{i}", case, unknown(c))
        if tier == "thorough" or i % 3 == 0:
            yield Item("C12", f"struct{i}/near", case, unknown(c, True))
    for i, (style, ra) in enumerate([(s, r) for s in ("none", "rename", "alias", "both") for r in structs.RENAMES]):
        c = names_class(ra, style)
        c.deny = True
        yield Item("C12", f"names/{ra}/{style}", case_for(f"dn_{ra}_{style}", c), unknown(c))
        yield Item("C12", f"names/{ra}/{style}/near", case_for(f"dn_{ra}_{style}", c), unknown(c, True))
        if style in ("alias", "both"):
            yield Item("C12", f"alias/{ra}/{style}", case_for(f"dn_{ra}_{style}", c), aliases(c))
