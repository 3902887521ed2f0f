"""Contract harnesses, continued: error discipline and customization."""
from __future__ import annotations
from . import catalog, structs
from .env import Raised
from .items import Item, prop
from .props import case_for, each_type, resolve, spec_mod, struct_cases, tag, lib, OPT_MATRIX, encoding, \
    roundtrip, fmt_roundtrip, fmt_ok, FORMATS
from .props2 import Pair, struct_opts, known_names, WIDE, wild_for, keys_of, strict_types
from .props3 import d
from .types import *


# ------------------------------------------------------------------ C14: error discipline
def only_serde_errors(c, wild, named=True):
    """Any document: a value, or SerdeError; the document is left as it was."""
    def run(h):
        m = h.mod
        w = h.value(wild)
        doc = {"x": w, "tail": 1} if named else (w, 1)
        before = h.shared(doc)
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), doc)
        if type(y) is Raised:
            h.raises(y, m.SerdeError, "the only error is SerdeError")
        else:
            h.check(type(y) is h.cls(c.name), "otherwise an instance of the class is returned")
        h.same(doc, before, "the document is unchanged")
    return run


def top_wild(c, named=True):
    """Arbitrary data in place of the document of the class."""
    def run(h):
        m = h.mod
        keys = [n for f in c.de_fields() for n in (c.key(f), *f.alias)]
        w = h.value(AnyOf(Wild(1, ("int", "str", "none", "list"), ()), WildDoc([(k, AnyOf(Int(), NoneT())) for k in keys][:4]))
                    if named else Wild(1, ("int", "str", "none", "list", "tuple")))
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), w)
        if type(y) is Raised:
            h.raises(y, m.SerdeError, "the only error is SerdeError")
        else:
            h.check(type(y) is h.cls(c.name), "otherwise an instance of the class is returned")
    return run


def struct_wild(c):
    """A valid document with one field replaced by, and one position holding, arbitrary data."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c)
        doc = c.wire(h, x, o)
        fs = c.de_fields()
        f = fs[h.pick(len(fs))]
        doc[c.key(f)] = h.value(Wild(1, keys=keys_of(f.t)))
        y = h.call(m.from_dict, h.cls(c.name), doc, reuse_instances=o.reuse)
        if type(y) is Raised:
            h.raises(y, m.SerdeError, "the only error is SerdeError")
        else:
            h.check(type(y) is h.cls(c.name), "otherwise an instance of the class is returned")
    return run


MYERR = """
class MyErr(Exception):
    pass
"""
ERRORS = ["Exception", "TypeError", "ValueError", "KeyError", "AttributeError", "IndexError", "LookupError", "RuntimeError",
          "StopIteration", "AssertionError", "NotImplementedError", "OSError", "SerdeError", "ArithmeticError", "UnicodeError"]


def my_err(base):
    """The user's exception: a subclass, or an instance, of any other exception."""
    return f"class MyErr({base}):\n    pass\n"

POST = """    def __post_init__(self):
        if self.p > 10:
            raise MyErr(self.p)
"""


def guarded(**kw):
    return C("G", [F("p", Int()), F("q", Str())], body=POST, **kw)


class Raw(T):
    """A document {p: int, q: str} for the guarded class."""
    hashable = False

    def __init__(self, named=True):
        self.named = named

    def src(self): return "Any"

    def gen(self, h):
        p, q = h.int_(), h.str_()
        return {"p": p, "q": q} if self.named else (p, q)


def user_positions():
    g = d(guarded())
    yield "field", g, lambda r: r, lambda v: [v]
    yield "list", ListT(g), lambda r: ListT(r), lambda v: [e for e in v]
    yield "dict", DictT(Str(), g), lambda r: DictT(Str(), r), lambda v: [e for e in v.values()]
    yield "opt", Opt(g), lambda r: r, lambda v: [v]
    yield "tuple", TupleT(Int(), g), lambda r: Pair(Int(), r), lambda v: [v[1]]
    yield "vartuple", VarTuple(g), lambda r: ListT(r), lambda v: [e for e in v]
    yield "deque", DequeT(g), lambda r: ListT(r), lambda v: [e for e in v]
    yield "optlist", Opt(ListT(g)), lambda r: ListT(r), lambda v: [e for e in v]
    yield "listlist", ListT(ListT(g)), lambda r: ListT(ListT(r)), lambda v: v
    yield "nested", d(C("M", [F("k", g), F("o", Opt(g))])), lambda r: DocOf(k=r), lambda v: [v.k]
    yield "transparent", d(C("V", [F("w", g)], transparent=True)), lambda r: r, lambda v: [v.w]
    yield "alias", Alias695("Al", g), lambda r: r, lambda v: [v]


class DocOf(T):
    hashable = False

    def __init__(self, **kw):
        self.kw = kw

    def src(self): return "Any"

    def gen(self, h):
        r = {}
        for k, t in self.kw.items():
            r[k] = t.gen(h)
        return r


def user_error(c, raw, inner, named=True, fmt=None, opts=None):
    """An exception of the class's own constructor code reaches the caller as it is - and nothing else does."""
    def run(h):
        m = h.mod
        w = h.value(raw)
        doc = {"x": w, "tail": 1} if named else (w, 1)
        y = h.call(m.from_dict if named else m.from_tuple, h.cls(c.name), doc, **(opts or {}))
        if type(y) is Raised:
            h.check(type(y.exc) is m.MyErr, "the exception of the constructor reaches the caller unchanged",
                    detail=f"{type(y.exc).__name__}: {y.exc}")
            h.check(type(y.exc) is m.MyErr and y.exc.args[0] > 10, "it is raised for an object that the constructor rejects")
            return
        spec_mod().all_within(h, inner(y.x), "an object that the constructor rejects is not returned")
    return run


def user_error_top(c):
    def run(h):
        m = h.mod
        p, q = h.int_(), h.str_()
        for r in (h.call(m.from_dict, h.cls(c.name), {"p": p, "q": q}), h.call(m.from_tuple, h.cls(c.name), (p, q)),
                  h.call(h.cls(c.name), p, q)):
            if c.kw_only and type(r) is Raised and type(r.exc) is TypeError:
                continue         # the direct call with positional arguments
            if p > 10:
                h.raises(r, m.MyErr, "the exception of the constructor reaches the caller unchanged")
                h.same(r.exc.args, (p,), "with its arguments")
            else:
                r = h.ok(r, "an object that the constructor accepts is returned")
                h.same((r.p, r.q), (p, q), "with its values")
        bad = h.call(m.from_dict, h.cls(c.name), {"p": "no", "q": q})
        if c.type_check is None:
            h.raises(bad, m.SerdeError, "an argument of a wrong type is reported before the constructor's own code runs")
    return run


RAISING = """
class MyErr(Exception):
    pass
def ser(v):
    if v > 10:
        raise MyErr(v)
    return v
def de(v):
    if v > 10:
        raise MyErr(v)
    return v
def pred(v):
    if v > 10:
        raise MyErr(v)
    return False
"""


def custom_error(c, what):
    """A customization function that raises: SerdeError, and only when it raises."""
    def run(h):
        m = h.mod
        p = h.int_()
        o = object.__new__(h.cls("K"))
        o.v = p
        a = object.__new__(h.cls("A"))
        a.x, a.l, a.tail = o, [o], 1
        if what == "de":
            calls = [h.call(m.from_dict, h.cls("K"), {"v": p}), h.call(m.from_tuple, h.cls("K"), (p,)),
                     h.call(m.from_dict, h.cls("A"), {"x": {"v": p}, "l": [], "tail": 1}),
                     h.call(m.from_dict, h.cls("A"), {"x": {"v": 1}, "l": [{"v": p}], "tail": 1})]
        else:
            calls = [h.call(m.to_dict, o), h.call(m.to_dict, a), h.call(m.to_dict, [o])]
            if what == "ser":
                calls += [h.call(m.to_tuple, o), h.call(m.to_tuple, a)]
        for r in calls:
            if p > 10:
                h.raises(r, m.SerdeError, "an error of a customization function is reported as SerdeError")
            else:
                h.ok(r, "no error otherwise")
    return run


def bad_instance(c, t):
    """An instance holding a value that its annotation does not admit: a document, or SerdeError."""
    def run(h):
        m = h.mod
        o = object.__new__(h.cls(c.name))
        o.x, o.tail = h.value(Wild(1, WIDE)), 1
        before = h.shared(o)
        for f, kw in ((m.to_dict, {}), (m.to_tuple, {}), (m.to_dict, {"reuse_instances": False, "convert_sets": True})):
            r = h.call(f, o, **kw)
            if type(r) is Raised:
                h.raises(r, m.SerdeError, "the only error is SerdeError")
        h.same(o, before, "input unchanged")
    return run


@prop("C14")
def c14(tier):
    ts = strict_types()
    for mode in (None, "coerce", "disabled"):
        for i, t in enumerate(ts):
            if mode is None and tier == "quick" and i % 3:
                continue
            c = C("A", [F("x", t), F("tail", Int())], type_check=mode)
            case = case_for(f"ew_{mode}_{i}", c)
            for named in (True, False):
                if named or tier == "thorough" or i % 2 == 0:
                    yield Item("C14", f"{mode}/{i}/{t}/{int(named)}", case, only_serde_errors(c, wild_for(t), named))
            if mode is None or tier == "thorough":
                yield Item("C14", f"{mode}/{i}/{t}/instance", case, bad_instance(c, t))
    for i, c, case in struct_cases():
        if tier == "thorough" or i % 2 == 0:
            yield Item("C14", f"struct{i}/field", case, struct_wild(c))
        for named in (True, False):
            if not (not named and any(f.skip_serializing for f in c.fields)) and (tier == "thorough" or i % 4 == named):
                yield Item("C14", f"struct{i}/top{int(named)}", case, top_wild(c, named))
    for n, t, mk, inner in user_positions():
        for mode in (None, "coerce", "disabled"):
            c = C("A", [F("x", t), F("tail", Int())], type_check=mode)
            case = case_for(f"ue_{n}_{mode}", c, header=MYERR)
            yield Item("C14", f"user/{n}/{mode}/1", case, user_error(c, mk(Raw()), inner))
            if n != "nested":
                yield Item("C14", f"user/{n}/{mode}/0", case, user_error(c, mk(Raw(False)), inner, False))
    for mode in (None, "coerce", "disabled"):
        for kw in ({}, {"frozen": True}, {"rename_all": "camelcase"}, {"slots": True}, {"kw_only": True}):
            c = guarded(type_check=mode, **kw)
            yield Item("C14", f"user/top/{mode}/{sorted(kw)}", case_for(f"ut_{mode}_{sorted(kw)}", c, header=MYERR),
                       user_error_top(c))
    for i, base in enumerate(ERRORS):
        hd = my_err(base)
        for j, (n, t, mk, inner) in enumerate(user_positions()):
            if tier == "quick" and (i + j) % 4:
                continue
            c = C("A", [F("x", t), F("tail", Int())], type_check=[None, "coerce", "disabled"][(i + j) % 3])
            case = case_for(f"ue_{n}_{base}", c, header=hd)
            yield Item("C14", f"user/{n}/{base}/1", case, user_error(c, mk(Raw()), inner))
            if n != "nested":
                yield Item("C14", f"user/{n}/{base}/0", case, user_error(c, mk(Raw(False)), inner, False))
        for mode in (None, "coerce", "disabled"):
            c = guarded(type_check=mode)
            yield Item("C14", f"user/top/{mode}/{base}", case_for(f"ut_{mode}_{base}", c, header=hd), user_error_top(c))
    for what, f in (("ser", F("v", Int(), serializer=("ser", None))), ("de", F("v", Int(), deserializer=("de", None))),
                    ("skip_if", F("v", Int(), skip_if=("pred", None)))):
        k = C("K", [f])
        c = C("A", [F("x", d(k)), F("l", ListT(d(k))), F("tail", Int())])
        yield Item("C14", f"custom/{what}", case_for(f"uc_{what}", c, header=RAISING), custom_error(c, what))


# ------------------------------------------------------------------ C15: customization
class Tagged(T):
    """A value whose type is customized: the representation is [tag, base]."""

    def __init__(self, t, tag):
        self.t, self.tag = t, tag
        self.hashable, self.depth = t.hashable, t.depth

    def src(self): return self.t.src()
    def classes(self): return self.t.classes()
    def gen(self, h): return self.t.gen(h)
    def enc(self, h, v, o): return custom_form(h, self.tag, self.t, v)


def custom_form(h, tag, t, v):
    return [tag, t.enc(h, v, Opts(True, False, False, False))]


CBASE = {
    # name: (type, annotation, representation, back)
    "int": (Int(), "int", "v", "int(v)", "float"),
    "dt": (DATETIME, "datetime.datetime", "v.isoformat()", "datetime.datetime.fromisoformat(v)", "int"),
    "str": (Str(), "str", "v", "str(v)", "int"),
    "uuid": (UUID, "uuid.UUID", "str(v)", "uuid.UUID(v)", "str"),
    "enum": (E_STR, "EStr", "v.value", "EStr(v)", "int"),
    "data": (d(C("Pt", [F("px", Int())])), "Pt", "{'px': v.px}", "Pt(v['px'])", "int"),
}


def custom_header(n, legacy_too=True):
    t, ann, rep, back, _ = CBASE[n]
    s = ""
    for w in ("class", "global", "other"):
        s += f"""
class Ser_{w}:
    @dispatch
    def serialize(self, v: {ann if w != 'other' else 'decimal.Decimal'}) -> Any:
        return [{w!r}, {rep if w != 'other' else 'str(v)'}]
    @dispatch
    def serialize(self, v: bytes) -> Any:
        return 'bytes'
class De_{w}:
    @dispatch
    def deserialize(self, cls: type[{ann if w != 'other' else 'decimal.Decimal'}], w: Any) -> Any:
        if w[0] != {w!r}:
            raise ValueError('not mine')
        v = w[1]
        return {back if w != 'other' else 'decimal.Decimal(v)'}
    @dispatch
    def deserialize(self, cls: type[bytes], w: Any) -> Any:
        return b''
"""
    s += f"""
def fser(v):
    return ['field', {rep}]
def fde(w):
    if w[0] != 'field':
        raise ValueError('not mine')
    v = w[1]
    return {back}
def lser(cls, v):
    if cls is {ann}:
        return ['legacy', {rep}]
    raise SerdeSkip()
def lde(cls, w):
    if cls is {ann}:
        if w[0] != 'legacy':
            raise ValueError('not mine')
        v = w[1]
        return {back}
    raise SerdeSkip()
"""
    return s


REGISTER = """
import serde.core as _core
from serde.se import default_serializer
from serde.de import default_deserializer
from serde import SerdeSkip
"""


class CustomCase(C):
    """The class under test; global customizations are registered only while it is defined."""
    glob = ()

    def source(self):
        s = "".join(f"_core.add_serializer(Ser_{g}())\n_core.add_deserializer(De_{g}())\n" for g in self.glob)
        s += super().source()
        s += "".join("_core.GLOBAL_CLASS_SERIALIZER.pop()\n_core.GLOBAL_CLASS_DESERIALIZER.pop()\n" for g in self.glob)
        return s


def custom_class(n, cls, glob, legacy, shape=0):
    t, ann, rep, back, oth = CBASE[n]
    winner = "class" if cls else ("global" if glob else None)
    if winner is None and legacy:
        winner = "legacy"
    x = Tagged(t, winner) if winner else t
    other = {"int": Int(), "float": Float(), "str": Str()}[oth]
    N = C("N", [F("v", t), F("w", ListT(t))])
    fs = [F("a", x)]
    if shape == 0:
        fs += [F("b", t, serializer=("fser", lambda h, v: custom_form(h, "field", t, v)), deserializer=("fde", None)),
               F("h", other),
               F("dm", t, serializer=("default_serializer", None), deserializer=("default_deserializer", None))]
        fs[3].marker = True      # the marker restores the representation of the type under the options in force
    elif shape == 1:
        fs += [F("n", d(N)), F("ol", Opt(d(N)))]
    elif shape == 2:
        fs += [F("c", ListT(x)), F("f", TupleT(x, other))]
    else:
        fs += [F("o", Opt(x)), F("e", DictT(Int() if n == "str" else Str(), x)), F("lo", ListT(Opt(x)))]
    opts = []
    if cls:
        opts.append("class_serializer=Ser_class(), class_deserializer=De_class()")
    if legacy:
        opts.append("serializer=lser, deserializer=lde")
    c = CustomCase("A", fs, extra_opts=", ".join(opts))
    c.glob = ("other", "global") if glob == 2 else ("global",) if glob else ()
    return c, N


def marker_enc(c):
    """Field representation: the default-serializer marker means the built-in representation."""
    real = C.enc_field

    def enc_field(self, h, f, v, o):
        if getattr(f, "marker", False):
            return f.t.enc(h, v, o)
        return real(self, h, f, v, o)
    return enc_field


CustomCase.enc_field = marker_enc(CustomCase)


def custom_decode(c, named=True):
    """The customized representation is read back; the representation of another customization is rejected."""
    def run(h):
        m = h.mod
        x = h.value(c.t())
        o = struct_opts(c, named)
        doc = c.wire(h, x, o) if named else c.enc(h, x, o)
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.cls("A"), doc, reuse_instances=o.reuse),
                 "the customized representation is read")
        h.same(y, x, "and gives the value")
        if named:
            for f in ("a", "b"):
                if f not in doc or f == "a" and not isinstance(c.fields[0].t, Tagged):
                    continue
                doc2 = dict(doc)
                doc2[f] = ["someone else", doc[f][1]]
                h.raises(h.call(m.from_dict, h.cls("A"), doc2), m.SerdeError, "each field is read by its own customization")
    return run


def global_direct(n):
    """A global customization also applies to the values passed to the API themselves."""
    t = CBASE[n][0]

    def run(h):
        m = h.mod
        v = h.value(t)
        before = h.shared(v)
        want = custom_form(h, "global", t, v)
        core = m._core
        core.add_serializer(m.Ser_global())
        core.add_deserializer(m.De_global())
        r = h.call(m.to_dict, v)
        rl = h.call(m.to_dict, [v])
        rt = h.call(m.to_tuple, {"k": v})
        ty = h.evaluate(t.src())
        y = h.call(m.from_dict, ty, want)
        yl = h.call(m.from_dict, h.evaluate(f"list[{t.src()}]"), [want])
        yo = h.call(m.from_dict, h.evaluate(f"Optional[{t.src()}]"), want)
        core.GLOBAL_CLASS_SERIALIZER.pop()
        core.GLOBAL_CLASS_DESERIALIZER.pop()
        h.same(h.ok(r, "serialization succeeds"), want, "the global customization is used")
        h.same(h.ok(rl, "serialization succeeds"), [want], "for elements of a list, too")
        h.same(h.ok(rt, "serialization succeeds"), {"k": want}, "for values of a mapping, too")
        h.same(h.ok(y, "deserialization succeeds"), before, "the global customization reads the value")
        h.same(h.ok(yl, "deserialization succeeds"), [before], "for elements of a list, too")
        h.same(h.ok(yo, "deserialization succeeds"), before, "for an optional, too")
        # without the registration
        z = h.ok(h.call(m.to_dict, v, reuse_instances=False), "serialization succeeds")
        h.same(z, t.enc(h, v, Opts(True, False, False, False)), "and only while it is registered")
    return run


@prop("C15")
def c15(tier):
    k = 0
    for n in CBASE:
        for cls in (0, 1):
            for glob in (0, 1, 2):
                for legacy in (0, 1):
                    for shape in range(4):
                        if legacy and not (cls or glob) and shape > 1:
                            continue       # the legacy protocol has no rule for elements of containers
                        k += 1
                        c, N = custom_class(n, cls, glob, legacy, shape)
                        case = custom_case(n, f"{cls}{glob}{legacy}{shape}", c, N)
                        p = f"{n}/{cls}{glob}{legacy}/{shape}"
                        for named in (True, False):
                            for reuse, sets in ((None, None), (False, True)):
                                if tier == "thorough" or (k + named) % 2 == bool(sets):
                                    yield Item("C15", f"{p}/enc{int(named)}{tag(reuse)}", case, encoding(c, named, reuse, sets))
                                    yield Item("C15", f"{p}/rt{int(named)}{tag(reuse)}", case, roundtrip(c, named, reuse, sets))
                            yield Item("C15", f"{p}/de{int(named)}", case, custom_decode(c, named))
                        if tier == "thorough" or k % 3 == 0:
                            yield Item("C15", f"{p}/json", case, fmt_roundtrip(c, "json"))
        if n != "data":
            yield Item("C15", f"{n}/direct", custom_case(n, "direct", *custom_class(n, 0, 0, 0)), global_direct(n))


class Defs(T):
    """Module-level definitions between the classes."""

    def __init__(self, name, text):
        self.name, self.text = name, text

    def classes(self): return [(self.name, self.text)]


def custom_case(n, p, c, N):
    return case_for(f"cust_{n}_{p}", CBASE[n][0], d(N), Defs("custom", REGISTER + custom_header(n)), c)
