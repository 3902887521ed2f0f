"""Contract harnesses, continued: class definitions - generic, inherited, recursive, forward declared."""
from __future__ import annotations
from . import catalog
from .catalog import SMALL, SMALL_F
from .env import Raised
from .items import Item, prop
from .props import case_for, fmt_ok, fmt_roundtrip, lib, resolve, spec_mod, tag
from .types import *

VT, VU = Var("T"), Var("U")


# ------------------------------------------------------------------ contracts on a value of type t
def encodes(t, c, named, reuse=None, sets=None, skip_none=False):
    """Serializing a value of t (options of class c) gives the documented document."""
    def run(h):
        m = h.mod
        x = h.value(t)
        before = h.shared(x)
        o = resolve(c, named, reuse, sets, skip_none)
        kw = {"skip_none": True} if skip_none else {}
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets, **kw),
                 "serialization succeeds")
        h.same(r, t.enc(h, x, o), "the document is the documented encoding")
        h.same(x, before, "input unchanged")
    return run


def restores(t, c, named, reuse=None, sets=None):
    """Deserializing what serialization gives restores an equal value."""
    def run(h):
        m = h.mod
        x = h.value(t)
        before = h.shared(x)
        r = h.ok(h.call(m.to_dict if named else m.to_tuple, x, reuse_instances=reuse, convert_sets=sets),
                 "serialization succeeds")
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.evaluate(t.src()), r, reuse_instances=reuse),
                 "deserialization succeeds")
        h.same(y, before, "round trip gives an equal value")
        h.same(x, before, "input unchanged")
    return run


def decodes(t, c, named, reuse=None):
    """The documented document of a value is read as that value (whatever serialization does)."""
    def run(h):
        m = h.mod
        x = h.value(t)
        o = resolve(c, named, reuse, True)
        y = h.ok(h.call(m.from_dict if named else m.from_tuple, h.evaluate(t.src()), t.enc(h, x, o), reuse_instances=reuse),
                 "deserialization succeeds")
        h.same(y, x, "the document is read as the value it encodes")
    return run


def format_restores(t, fmt):
    base = fmt.split("_")[0]

    def run(h):
        to, frm = lib(h, fmt)
        x = h.value(t)
        before = h.shared(x)
        kw = {"named": False} if fmt == "msgpack_tuple" else {}
        s = h.ok(h.call(to, x, **kw), "serialization succeeds")
        y = h.ok(h.call(frm, h.evaluate(t.src()), s, **kw), "deserialization succeeds")
        h.same(y, before, f"{base} round trip gives an equal value")
    return run


# ------------------------------------------------------------------ programs: generic classes
def generic_specs():
    g = C("G", [F("v", VT), F("n", Int())], typevars=("T",), deco="dc")
    gl = C("GL", [F("a", ListT(VT)), F("b", Opt(VT)), F("c", DictT(Str(), VT))], typevars=("T",))
    gt = C("GT", [F("a", TupleT(VT, Int())), F("b", VarTuple(VT)), F("c", DequeT(ListT(VT)))], typevars=("T",))
    gp = C("GP", [F("a", VT), F("b", ListT(VU)), F("c", DictT(Str(), Opt(VT)))], typevars=("T", "U"))
    gn = C("GN", [F("a", Gen(g, VT)), F("b", ListT(Gen(g, VT))), F("c", Opt(Gen(g, VT))), F("d", DictT(Str(), Gen(g, VT)))],
           typevars=("T",))
    gs = C("GS", [F("p", Gen(gp, VU, VT)), F("q", Gen(gp, ListT(VT), Int()))], typevars=("T", "U"))
    gr = C("GR", [F("the_value", VT), F("other_one", ListT(VT), rename="oo")], typevars=("T",), rename_all="camelcase")
    gd = C("GD", [F("v", Opt(VT), default="None"), F("l", ListT(VT), factory="list")], typevars=("T",))
    gx = C("GX", [F("v", VT)], typevars=("T",), transparent=True)
    n5 = C("N5", [F("v", VT), F("w", ListT(VU))], typevars=("T", "U"), pep695=True)
    for s in (g, gl, gt, gp, gn, gs, gr, gd, gx, n5):
        if s.deco == "dc":
            s.deco = "serde"
            s.kw_only = False
    return dict(G=g, GL=gl, GT=gt, GP=gp, GN=gn, GS=gs, GR=gr, GD=gd, GX=gx, N5=n5)


def args1():
    return [Int(), Str(), Float(), Bool(), UUID, DATETIME, DECIMAL, PATH, E_STR, E_INT, Opaque(), Data(SMALL_F), Data(SMALL),
            ListT(Int()), DictT(Str(), UUID), SetT(Str()), TupleT(Int(), DATETIME), Opt(Int()), Opt(Opaque()),
            ListT(Opaque()), UnionT(Int(), Str()), ListT(Opt(UUID))]


def args2():
    return [(Int(), Str()), (Str(), UUID), (DATETIME, Opaque()), (Opaque(), ListT(Int())), (Opt(UUID), Data(SMALL_F)),
            (E_STR, DATE)]


def contexts(t):
    """(name, class holding the generic type) for every place a type may occur in."""
    yield "field", C("A", [F("x", t), F("tail", Int())])
    yield "list", C("A", [F("x", ListT(t)), F("tail", Int())])
    yield "opt", C("A", [F("x", Opt(t)), F("tail", Int())])
    yield "dict", C("A", [F("x", DictT(Str(), t)), F("tail", Int())])
    yield "tuple", C("A", [F("x", TupleT(Int(), t)), F("y", VarTuple(t))])
    yield "default", C("A", [F("x", Opt(ListT(t)), default="None"), F("y", ListT(t), factory="list")])


def generic_programs(tier):
    S = generic_specs()
    one = [n for n in S if len(S[n].typevars) == 1]
    k = 0
    for n in S:
        for a in (args1() if n in one else args2()):
            aa = a if isinstance(a, tuple) else (a,)
            if n in ("GD", "GL", "GN", "GX") and (isinstance(aa[0], Opt)):
                continue
            k += 1
            if tier == "quick" and n not in ("G", "GN") and len(S[n].typevars) == 1 and k % 3:
                continue
            yield Gen(generic_specs()[n], *aa)


# ------------------------------------------------------------------ programs: inheritance
def inheritance():
    S = generic_specs()
    P = C("P", [F("a_one", Int()), F("b_two", UUID)])
    yield "child", C("A", [F("c_three", ListT(Str()))], bases=(P,))
    yield "child-renamed", C("A", [F("c_three", ListT(Str()))], bases=(P,), rename_all="camelcase")
    yield "child-keeps-name", C("A", [F("c_three", Int(), rename="b_x")], bases=(C("P", [F("a_one", Int(), rename="zz"), F("b_two", UUID, alias=["q"])]),))
    yield "override", C("A", [F("a_one", Str()), F("c_three", Opt(Int()))], bases=(P,))
    yield "override-default", C("A", [F("b_two", Opt(DATETIME), default="None")], bases=(P,))
    M = C("M", [F("b_two", ListT(Int())), F("m", DATETIME)], bases=(P,))
    yield "grandchild", C("A", [F("last", Opaque())], bases=(M,))
    yield "plain-parent", C("A", [F("c", Opaque())], bases=(C("P", [F("a", Int()), F("b", Opt(UUID))], deco="dataclass"),))
    yield "plain-grandparent", C("A", [F("c", SetT(Int()))],
                                 bases=(C("P", [F("b", E_STR)], deco="dataclass", bases=(C("Q", [F("a", Int())], deco="dataclass"),)),))
    yield "mixin", C("A", [F("c", Int())], bases=(C("P", [F("a", Int())]), C("Q", [F("b", DATE)], deco="dataclass")))
    yield "two-parents", C("A", [F("c", Int())], bases=(C("P", [F("a", Int())]), C("Q", [F("b", Opaque())])))
    yield "method-mixin", C("A", [F("c", Int())], bases=(C("P", [F("a", UUID)]), "Hello"), prelude=[("Hello", "class Hello:\n    def hello(self):\n        return 1\n")])
    yield "parent-options", C("A", [F("c", SetT(IPV4))], bases=(C("P", [F("a", SetT(UUID))], reuse=False, sets=True),))
    yield "child-options", C("A", [F("c", SetT(IPV4))], bases=(C("P", [F("a", SetT(UUID))]),), reuse=False, sets=True)
    yield "parent-transparent", C("A", [F("c", Str())], bases=(C("P", [F("a", Int())], transparent=True),))
    yield "generic-base", C("A", [F("c", Int())], bases=(Gen(S["G"], UUID),))
    yield "generic-base-list", C("A", [F("x", Opt(Int()))], bases=(Gen(S["GL"], DATE),))
    yield "generic-base2", C("A", [F("x", Opt(Int()))], bases=(Gen(S["GP"], UUID, Opaque()),))
    yield "generic-base-nested", C("A", [], bases=(Gen(S["GN"], DATETIME),))
    yield "generic-grandbase", C("A", [F("z", Int())], bases=(C("M", [F("y", Str())], bases=(Gen(S["G"], Data(SMALL_F)),)),))
    yield "frozen", C("A", [F("c", Int())], frozen=True, bases=(C("P", [F("a", UUID)], frozen=True),))
    yield "slots", C("A", [F("c", Int())], slots=True, bases=(C("P", [F("a", UUID)], slots=True),))
    yield "kw-only-parent", C("A", [F("c", Int())], bases=(C("P", [F("a", UUID, default="uuid.UUID(int=1)")], kw_only=True),))
    yield "pair", C("A", [F("c", Int())], deco="pair", bases=(C("P", [F("a", UUID)], deco="pair"),))


def generic_children():
    S = generic_specs()
    yield "still-generic", Gen(C("Y", [F("w", ListT(VT))], bases=(Gen(generic_specs()["G"], VT),), typevars=("T",)), UUID)
    yield "one-more-variable", Gen(C("Y", [F("w", ListT(VU))], bases=(Gen(generic_specs()["G"], VT),), typevars=("T", "U")), Int(), DATE)


# ------------------------------------------------------------------ programs: recursion, forward references
def recursive():
    """(name, class, classes of the module besides it, future import)"""
    for fut in (False, True):
        q = not fut
        n = "future" if fut else "quoted"
        R = lambda name="A": SelfRef(name, q)
        yield f"{n}/optional", C("A", [F("v", UUID), F("next", Opt(R()), default="None")], late=True), (), fut
        yield f"{n}/list", C("A", [F("name", Str()), F("kids", ListT(R()))], late=True), (), fut
        yield f"{n}/dict", C("A", [F("name", Str()), F("kids", DictT(Str(), R())), F("one", Opt(R()))], late=True), (), fut
        yield f"{n}/nested", C("A", [F("k", Opt(ListT(DictT(Str(), R()))))], late=True), (), fut
        yield f"{n}/tuple", C("A", [F("k", VarTuple(R())), F("p", Opt(TupleT(R(), Int())))], late=True), (), fut
        yield f"{n}/renamed", C("A", [F("the_next", Opt(R())), F("d_t", DATETIME)], late=True, rename_all="camelcase"), (), fut
        yield f"{n}/union", C("A", [F("k", UnionT(Int(), R())), F("l", ListT(UnionT(Str(), R())))], late=True), (), fut
        yield (f"{n}/tagged", C("A", [F("name", Str()), F("kids", ListT(UnionT(Data(C("Leaf", [F("value", Int())])), R())))],
                                late=True, tagging="InternalTagging('type')"), (), fut)
        yield (f"{n}/adjacent", C("A", [F("name", Str()), F("kid", UnionT(Data(C("Leaf", [F("value", UUID)])), R()))],
                                  late=True, tagging="AdjacentTagging('t', 'c')"), (), fut)
        B = C("B", [F("a", Opt(R("A"))), F("n", DATE)], late=True)
        yield f"{n}/mutual", C("A", [F("b", Opt(R("B"))), F("m", Int())], late=True), (B,), fut
        yield f"{n}/mutual-list", C("A", [F("b", ListT(R("B"))), F("m", Opt(R()))], late=True), (C("B", [F("a", ListT(R("A"))), F("b", Opt(R("B")))], late=True),), fut
        yield f"{n}/forward", C("A", [F("b", R("B")), F("m", Int()), F("l", ListT(R("B")))], late=True), (C("B", [F("n", UUID)]),), fut
        yield (f"{n}/forward-options", C("A", [F("b", R("B")), F("m", DATETIME)], late=True),
               (C("B", [F("n", UUID), F("s", SetT(Int())), F("o", Opt(Int()))], late=True, reuse=False, sets=True, skip_if_none=True),), fut)
        yield (f"{n}/forward-transparent", C("A", [F("b", R("B")), F("m", DATETIME)], late=True),
               (C("B", [F("n", UUID)], late=True, transparent=True),), fut)
        yield (f"{n}/forward-renamed", C("A", [F("b", R("B")), F("m", DATETIME)], late=True),
               (C("B", [F("the_n", UUID), F("d_t", Opt(DATE), default="None")], late=True, rename_all="pascalcase", skip_if_default=True),), fut)


def plain_children():
    """Fields whose class has no decorator."""
    p = C("Pl", [F("a", Int()), F("b", Opt(UUID)), F("c", ListT(Str()))], deco="dataclass")
    pp = C("Pm", [F("p", Data(p)), F("d", DATE)], deco="dataclass")
    yield "plain", C("A", [F("x", Data(p)), F("y", ListT(Data(p))), F("z", Opt(Data(p)))])
    yield "plain-nested", C("A", [F("x", DictT(Str(), Data(pp))), F("y", TupleT(Data(pp), Int()))])
    yield "plain-union", C("A", [F("x", UnionT(Int(), Data(p)))])
    yield "classvar", C("A", [F("x", Int())], body="    K: ClassVar[int] = 3\n    L: ClassVar[list] = []\n    def m(self) -> 'A':\n        return self\n")
    yield "classvar-serde", C("A", [F("x", Opaque())], body="    K: ClassVar[str] = 'k'\n    @property\n    def y(self) -> int:\n        return 1\n    @staticmethod\n    def s() -> int:\n        return 2\n")
    yield "eq-order", C("A", [F("x", UUID)], body="    def __eq__(self, o):\n        return type(o) is type(self) and o.x == self.x\n    def __lt__(self, o):\n        return False\n")


@prop("C17")
def c17(tier):
    none = C("_", [])
    thorough = tier == "thorough"
    for k, t in enumerate(generic_programs(tier)):
        n = f"generic{k}/{t.src()}"
        case = case_for("c17g" + t.src(), t)
        for named in (True, False):
            for reuse, sets in ((None, None), (False, True), (True, False)):
                if thorough or (k + named) % 2 or reuse is None:
                    yield Item("C17", f"{n}/encode/{int(named)}{tag(reuse)}{tag(sets)}", case, encodes(t, t.spec, named, reuse, sets))
            yield Item("C17", f"{n}/decode/{int(named)}", case, decodes(t, t.spec, named, False))
            yield Item("C17", f"{n}/restore/{int(named)}", case, restores(t, t.spec, named))
        for j, (cn, c) in enumerate(contexts(t)):
            if not thorough and (j + k) % 3:
                continue
            if cn in ("default", "tuple") and t.spec.name in ("GN", "GL", "GS"):
                continue
            cc = case_for(f"c17g{t.src()}/{cn}", c)
            for named in (True, False):
                yield Item("C17", f"{n}/{cn}/encode/{int(named)}", cc, encodes(c.t(), c, named, False, True))
                yield Item("C17", f"{n}/{cn}/restore/{int(named)}", cc, restores(c.t(), c, named))
    for n, c in (*inheritance(), *plain_children()):
        case = case_for("c17i" + n, c)
        yield from class_items(f"class/{n}", c.t(), c, case)
    for n, t in generic_children():
        case = case_for("c17i" + n, t)
        yield from class_items(f"class/{n}", t, t.spec, case)
    for n, c, more, fut in recursive():
        case = case_for("c17r" + n, c, *[b.t() for b in more], future=fut)
        yield from class_items(f"recursive/{n}", c.t(), c, case)
        for b in more:
            yield from class_items(f"recursive/{n}/{b.name}", b.t(), b, case)


def class_items(n, t, c, case):
    for named in (True, False):
        for reuse, sets, sn in ((None, None, False), (False, True, False), (True, None, True)):
            if sn and not named:
                continue
            yield Item("C17", f"{n}/encode/{int(named)}{tag(reuse)}{tag(sets)}{int(sn)}", case, encodes(t, c, named, reuse, sets, sn))
        yield Item("C17", f"{n}/decode/{int(named)}", case, decodes(t, c, named, False))
        yield Item("C17", f"{n}/restore/{int(named)}", case, restores(t, c, named))
    if not n.startswith("recursive"):
        for fmt in ("json", "msgpack"):
            yield Item("C17", f"{n}/{fmt}", case, format_restores(t, fmt))
