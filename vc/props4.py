"""Contract harnesses, continued: flattening, transparent classes, error discipline, customization."""
from __future__ import annotations
from . import catalog, structs
from .env import Raised
from .items import Item, prop
from .props import case_for, each_type, resolve, spec_mod, struct_cases, tag, lib, OPT_MATRIX, encoding, \
    roundtrip, fmt_roundtrip, fmt_ok, FORMATS, fmt_text, lib
from .props2 import Pair, struct_opts, known_names, near_names, WIDE
from .props3 import d
from .types import *


# ------------------------------------------------------------------ C11: flattening
FEW = AnyOf(Int(), Str())
FULL = AnyOf(Int(), Str(), NoneT(), ListT(Int()), DictT(Str(), Int()))


class FlatT(T):
    """dict[str, Any] with flatten=True: any keys outside of the declared names, with plain values; with
    `clash`, possibly a declared name as well."""
    hashable = False

    def __init__(self, bare=False, clash=False, depth=1):
        self.bare, self.clash, self.d, self.known = bare, clash, depth, []

    def src(self): return "dict" if self.bare else "dict[str, Any]"

    def gen(self, h):
        r = {}
        if self.clash and h.choose(2):
            r[self.names[h.choose(len(self.names))]] = Int().gen(h)
        for k, v in h.extras(self.known, FULL if self.d else FEW, False).items():
            r[k] = v
        return r

    def enc(self, h, v, o): return {k: x for k, x in v.items()}


def deep_names(c):
    out = []
    for f in c.all_fields():
        t = f.t.t if isinstance(f.t, Opt) else f.t
        if f.flatten and isinstance(t, Data):
            out += deep_names(t.spec)
        elif not f.flatten:
            out += [c.key(f), *f.alias]
    return out


def children():
    yield "plain", C("K1", [F("c", Float()), F("flag_d", Bool())])
    yield "renamed", C("K2", [F("c_one", Int(), rename="C 1"), F("c_two", UUID), F("c_al", Str(), alias=["cAlt", "c-alt"])],
                       rename_all="camelcase")
    yield "defaults", C("K3", [F("p", Int()), F("q", Opt(Str())), F("r", Int(), default="3"), F("s", ListT(Int()), factory="list")])
    yield "nested", C("K4", [F("m", Str()), F("k", d(C("K1", [F("c", Float()), F("flag_d", Bool())])), flatten=True)])
    yield "omit", C("K5", [F("p", Int()), F("s", Opt(Str()), skip_if_none=True, default="None"),
                           F("t", Int(), skip_if_default=True, default="7"),
                           F("u", Str(), skip_if=("lambda v: v == 'no'", lambda v: v == "no"), default="'no'")])
    yield "custom", C("K6", [F("p", Int(), serializer=structs.CUSTOM["int"][0], deserializer=structs.CUSTOM["int"][1]),
                             F("w", DATETIME)])
    yield "nestedopt", C("K7", [F("m", Str()), F("k", Opt(d(C("K1", [F("c", Float()), F("flag_d", Bool())]))), flatten=True)])
    yield "types", C("K8", [F("l", ListT(Opaque())), F("o", Opt(d(C("K1", [F("c", Float()), F("flag_d", Bool())]))))])
    yield "opts", C("K9", [F("s", SetT(Int())), F("w", DATETIME)], reuse=False, sets=True)


WRAPS = ["plain", "opt", "default", "optdefault", "factory"]


def default_src(c):
    """Source of an instance."""
    return {"K1": "K1(1.5, True)", "K2": "K2(1, uuid.UUID(int=4), 'x')", "K3": "K3(1, None)", "K4": "K4('m', K1(2.5, False))",
            "K5": "K5(1)", "K6": "K6(1, datetime.datetime(2020, 1, 2))", "K7": "K7('m', None)",
            "K8": "K8([], None)", "K9": "K9(set(), datetime.datetime(2020, 1, 2))"}[c.name]


def parents(k, w, extra, ra, deny):
    kw = {}
    t = d(k)
    if w.startswith("opt"):
        t = Opt(t)
    if w == "optdefault":
        kw["default"] = "None"
    if w in ("default", "factory"):
        kw["factory"] = f"lambda: {default_src(k)}"
    fs = [F("a_one", Int()), F("b", Str(), rename="B!")]
    child = F("kid_x", t, flatten=True, **kw)
    flat = []
    if extra:
        flat = [F("extra", FlatT("bare" in extra, "clash" in extra, int("bare" in extra)), flatten=True, factory="dict")]
    if kw:
        fs = fs + [child]
    else:
        fs = [fs[0], child, fs[1]]
    if extra and "first" in extra:
        fs = [F(f.name, f.t, rename=f.rename, flatten=f.flatten, default=f.default, factory=f.factory, kw_only=True)
              for f in fs]
        fs = flat + fs
    else:
        fs = fs + flat
    c = C("A", fs, rename_all=ra, deny=deny)
    for f in flat:
        f.t.known = sorted(set(deep_names(c)))
        ks = [k.key(g) for g in k.all_fields() if not g.flatten]
        f.t.names = ["B!", ks[0], ks[-1]] + [a for g in k.all_fields() for a in g.alias][:1]
    return c


EXTRAS = ["dict", "bare", "dict clash first", "dict clash"]


def flat_classes(tier):
    n = 0
    for kn, k in children():
        for wi, w in enumerate(WRAPS):
            n += 1
            for ei, e in enumerate([None, EXTRAS[n % 4], EXTRAS[(n + 1) % 4]] if tier == "quick" else [None] + EXTRAS):
                ra = [None, "camelcase", "kebabcase"][(wi + ei) % 3]
                for deny in ((False, True) if e is None else (False,)):
                    yield f"{kn}/{w}/{e}/{int(deny)}", parents(k, w, e, ra, deny), \
                        parents(k, w, e and e.replace("clash", ""), ra, deny)


def flat_enc(c, reuse, sets, sn):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        before = h.shared(x)
        kw = {"skip_none": True} if sn else {}
        r = h.ok(h.call(m.to_dict, x, reuse_instances=reuse, convert_sets=sets, **kw), "serialization succeeds")
        h.same(x, before, "input unchanged")
        h.same(r, c.enc(h, x, resolve(c, True, reuse, sets, sn)), "fields are written inline; declared ones take precedence")
    return run


def flat_roundtrip(c, fmt=None):
    def run(h):
        m = h.mod
        x = h.value(c.t())
        before = h.shared(x)
        if fmt is None:
            r = h.ok(h.call(m.to_dict, x), "serialization succeeds")
            y = h.ok(h.call(m.from_dict, h.cls(c.name), r), "deserialization succeeds")
        else:
            to, frm = lib(h, fmt)
            r = h.ok(h.call(to, x), "serialization succeeds")
            y = h.ok(h.call(frm, h.cls(c.name), r), "deserialization succeeds")
        h.same(y, before, "flattened content is restored")
        h.same(x, before, "input unchanged")
    return run


def flat_extra(c, wide=None, near=False):
    """Entries under other names: captured by the dict, rejected, or ignored."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        flat = [f for f in c.all_fields() if isinstance(f.t, FlatT)]
        for f in flat:
            object.__setattr__(x, f.name, {})
        doc = c.wire(h, x, struct_opts(c))
        names = sorted(set(deep_names(c)))
        ex = h.value(Near([n for n in near_names(c, 4) if n not in names], Int()) if near else
                     Extras(names, FEW if wide is None else wide, some=True))
        full = spec_mod().merged(doc, ex) if h.pick(2) else spec_mod().merged(ex, doc)
        keep = h.shared(full)
        y = h.call(m.from_dict, h.cls(c.name), full)
        if c.deny and not flat:
            h.raises(y, m.SerdeError, "an unknown name is rejected")
            return
        y = h.ok(y, "other names are accepted")
        for f in flat:
            object.__setattr__(x, f.name, {k: v for k, v in ex.items()})
        h.same(y, x, "other names are captured exactly" if flat else "other names are ignored")
        h.same(full, keep, "the document is unchanged")
    return run


def flat_missing(c):
    """Some of the fields of the flattened dataclass absent."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        child = [f for f in c.all_fields() if f.flatten and not isinstance(f.t, FlatT)][0]
        opt = isinstance(child.t, Opt)
        k = child.t.t.spec if opt else child.t.spec
        h.assume(getattr(x, child.name) is not None)
        for f in c.all_fields():
            if isinstance(f.t, FlatT):
                object.__setattr__(x, f.name, {})
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        gone = []
        for f in k.de_fields():
            if not f.flatten and h.pick(2):
                del doc[k.key(f)]
                gone.append(f.name)
        y = h.call(m.from_dict, h.cls(c.name), doc)
        present = [f.name for f in k.de_fields() if f.name not in gone]
        want = spec_mod().restored(h, k, getattr(x, child.name), present)
        if want is None and not opt and not child.has_default():
            h.raises(y, m.SerdeError, "a missing field of the flattened class is reported")
            return
        y = h.ok(y, "fields with a default may be absent")
        if want is None:
            # incomplete: the default of the field or None
            object.__setattr__(x, child.name, h.default_of(child) if child.has_default() else None)
        else:
            object.__setattr__(x, child.name, want)
        h.same(y, x, "absent fields of the flattened class get their defaults")
    return run


@prop("C11")
def c11(tier):
    for j, (n, c, c2) in enumerate(flat_classes(tier)):
        case = case_for("fl_" + n, c)
        for reuse, sets, sn in ((None, None, False), (False, True, True)):
            yield Item("C11", f"{n}/enc{tag(reuse)}{tag(sets)}{int(sn)}", case, flat_enc(c, reuse, sets, sn))
        yield Item("C11", f"{n}/rt", case, flat_roundtrip(c2))
        yield Item("C11", f"{n}/extra", case, flat_extra(c2, FULL if n.startswith(("plain", "renamed")) else None))
        yield Item("C11", f"{n}/near", case, flat_extra(c2, None, True))
        yield Item("C11", f"{n}/missing", case, flat_missing(c2))
        for i, fmt in enumerate(("json", "msgpack", "yaml")):
            if not (fmt == "msgpack" and "bare" in n) and (tier == "thorough" or (i + j) % 3 == 0):
                yield Item("C11", f"{n}/{fmt}", case, flat_roundtrip(c2, fmt))


# ------------------------------------------------------------------ C13: transparent classes
def tcase(t, **kw):
    """A transparent class around t, alone and in every kind of position."""
    extra = kw.pop("extra", [])
    V = C("V", [F("value", t, **kw)] + extra, transparent=True)
    Oth = C("Oth", [F("p", Int()), F("r", Bool())])
    top = C("A", [F("x", d(V)), F("l", ListT(d(V))), F("m", DictT(Str(), d(V))), F("o", Opt(d(V))), F("tail", Int())])
    return V, Oth, top


def direct_rt(c, reuse, sets, skip_none=False):
    """The transparent class itself: its form is the form of its field."""
    def run(h):
        m = h.mod
        f = c.de_fields()[0]
        x = h.value(c.t())
        before = h.shared(x)
        for named in (True, False):
            o = resolve(c, named, reuse, sets, skip_none)
            kw = {"skip_none": True} if skip_none else {}
            r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets, **kw),
                     "serialization succeeds")
            h.same(r, c.enc_field(h, f, getattr(x, f.name), o), "the form is that of the field")
            y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), r, reuse_instances=o.reuse),
                     "deserialization succeeds")
            h.same(y, before, "the value is restored")
        h.same(x, before, "input unchanged")
    return run


def transparent_wild(c, t, wild):
    """Arbitrary data for a transparent class: accepted with a value of the field's type, or SerdeError."""
    def run(h):
        w = h.value(wild)
        y = h.call(h.mod.from_dict, h.cls(c.name), w)
        z = h.call(h.mod.from_tuple, h.cls(c.name), w)
        for r in (y, z):
            if type(r) is Raised:
                h.raises(r, h.mod.SerdeError, "unsuitable data is rejected with SerdeError")
                h.check(not (isinstance(t, (Int, Str, Bool)) and h.isa(w, t)), "suitable data is accepted")
                continue
            h.check(type(r) is h.cls(c.name), "an instance of the class")
            h.check(h.isa(r.value, t), "the field has its declared type", detail=f"{r.value!r} for {t}")
    return run


BAD_TRANSPARENT = [
    ("two", "    a: int\n    b: str\n"),
    ("twodef", "    a: int\n    b: str = 'x'\n"),
    ("none", "    pass\n"),
    ("skipped", "    a: int = field(default=1, skip=True)\n"),
    ("noinit", "    a: int = field(default=1, init=False)\n"),
    ("extra", "    a: int\n    b: int = field(default=1, init=False)\n"),
    ("extra2", "    a: int\n    b: int = field(default=1, init=False, skip_serializing=True)\n"),
    ("extra3", "    a: int\n    b: int = field(default=1, init=False, skip_deserializing=True)\n"),
    ("skipinit", "    a: int\n    b: int = field(default=1, skip=True)\n"),
]


def bad_definition(body, deco):
    def run(h):
        src = f"@{deco}(transparent=True)\n@dataclasses.dataclass\nclass Bad:\n{body}"
        r = h.call(define, h, src)
        h.raises(r, h.mod.SerdeError, "a class that is not a single-field wrapper is rejected when defined")
    return run


def define(h, src):
    from . import instr
    code = instr.transform(src, "<bad>") if instr.ACTIVE else compile(src, "<bad>", "exec", dont_inherit=True)
    g = dict(h.mod.__dict__)
    exec(code, g)
    return g["Bad"]


SKIPPED = [F("cache", Int(), default="3", init=False, skip=True),
           F("memo", ListT(Int()), factory="list", init=False, skip_serializing=True, skip_deserializing=True)]


@prop("C13")
def c13(tier):
    for group, i, t, _, _ in each_type(tier, lambda g, i, t: g != "d2_" or tier == "thorough" and i % 3 == 0):
        if group == "d1_" and tier == "quick" and i % 2:
            continue
        V, Oth, top = tcase(t)
        vc = case_for(f"tv_{group}{i}", V, Oth, top)
        for reuse, sets in OPT_MATRIX[:2]:
            yield Item("C13", f"{group}{i}/{t}/direct{tag(reuse)}{tag(sets)}", vc, direct_rt(V, reuse, sets))
        if isinstance(t, (NoneT, AnyT)) or group == "d1_" and i % 4:
            continue
        small = C("A", [F("x", d(V)), F("o", Opt(d(V))) if not isinstance(t, Opt) else F("o", Int()), F("tail", Int())])
        sc = case_for(f"ts_{group}{i}", small)
        for named in (True, False):
            yield Item("C13", f"{group}{i}/{t}/enc{int(named)}", sc, encoding(small, named, None, None))
            yield Item("C13", f"{group}{i}/{t}/rt{int(named)}", sc, roundtrip(small, named, None, None))
        for j, fmt in enumerate(("json", "msgpack", "toml", "yaml")):
            if fmt_ok(t, fmt) and (i % 4 == j or tier == "thorough"):
                yield Item("C13", f"{group}{i}/{t}/{fmt}", sc, fmt_roundtrip(small, fmt))
        from .props2 import wild_for
        if group == "leaf" and not isinstance(t, (Opaque, Data, PrimSub, NewT)):
            yield Item("C13", f"{group}{i}/{t}/wild", vc, transparent_wild(V, t, wild_for(t)))
    for n, t, kw in [("int", Int(), {}), ("str", Str(), {}), ("uuid", UUID, {}), ("list", ListT(DATETIME), {}), ("kid", Opaque(), {}),
                     ("data", d(C("Inner", [F("p", Int())], rename_all="camelcase")), {}), ("set", SetT(Int()), {}),
                     ("opt", Opt(Int()), {}), ("union", UnionT(Int(), Str()), {}),
                     ("rename", Int(), dict(rename="other")), ("alias", Int(), dict(alias=["al", "al2"])),
                     ("default", Int(), dict(default="5")), ("factory", ListT(Int()), dict(factory="list")),
                     ("skipif", Int(), dict(skip_if=("lambda v: v == 3", lambda v: v == 3))),
                     ("skipnone", Opt(Int()), dict(skip_if_none=True)),
                     ("custom", Int(), dict(serializer=structs.CUSTOM["int"][0], deserializer=structs.CUSTOM["int"][1]))]:
        for ex in (0, 1):
            V, Oth, top = tcase(t, extra=[F(f.name, f.t, default=f.default, factory=f.factory, init=False, skip=f.skip,
                                            skip_serializing=f.skip_serializing, skip_deserializing=f.skip_deserializing)
                                          for f in SKIPPED] if ex else [], **kw)
            dc = case_for(f"tx_{n}_{ex}", V, Oth)
            for sn in (False, True):
                yield Item("C13", f"opt/{n}/{ex}/direct{int(sn)}", dc, direct_rt(V, None, None, sn))
            tc = case_for(f"tt_{n}_{ex}", top, Oth)
            if n not in ("opt", "skipnone"):
                for named in (True, False):
                    yield Item("C13", f"opt/{n}/{ex}/enc{int(named)}", tc, encoding(top, named, None, None))
                    yield Item("C13", f"opt/{n}/{ex}/rt{int(named)}", tc, roundtrip(top, named, None, None))
        nest = C("VV", [F("w", d(V))], transparent=True)
        nc = case_for(f"tn_{n}", nest)
        yield Item("C13", f"opt/{n}/nested", nc, direct_rt(nest, None, None))
        if n in ("int", "str", "list", "data", "kid"):
            for tg in (None, 'AdjacentTagging("t", "c")'):
                un = C("A", [F("x", UnionT(d(V), d(Oth))), F("tail", Int())], tagging=tg)
                uc = case_for(f"tu_{n}_{tg}", un)
                for named in (True, False):
                    yield Item("C13", f"opt/{n}/union{int(named)}/{tg}", uc, encoding(un, named, None, None))
                    yield Item("C13", f"opt/{n}/unionrt{int(named)}/{tg}", uc, roundtrip(un, named, None, None))
    for n, body in BAD_TRANSPARENT:
        for deco in ("serde", "serialize", "deserialize"):
            yield Item("C13", f"bad/{n}/{deco}", case_for("tbad", C("Oth", [F("p", Int())])), bad_definition(body, deco))
