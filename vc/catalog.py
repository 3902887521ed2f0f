"""The schemas the contracts are discharged for: every type constructor of the supported types table,
over leaves and over each other, and every field / class option, alone and in pairs."""
from __future__ import annotations
import random
from .types import *

SMALL = C("Inner", [F("p", Int()), F("q", Str())])
SMALL_F = C("InnerF", [F("p", Int()), F("q", Str())], frozen=True)


def leaves():
    return [Int(), Str(), Float(), Bool(), UUID, PATH, DECIMAL, DATETIME, DATE, TIME,
            E_STR, E_INT, Lit(1, "a"), NewT("NInt", Int()), Opaque(), Data(SMALL)]


def more_leaves():
    return [PUREPATH, WINPATH, IPV4, IPV6, NET4, NET6, IF4, IF6, E_MIX, E_STRENUM, NestedEnumT(),
            Lit("x", "y"), Lit(True, False), NewT("NStr", Str()), NewT("NFloat", Float()),
            PrimSub("SInt", Int()), PrimSub("SStr", Str()), PrimSub("SFloat", Float()), AnyT(), NoneT(),
            Data(SMALL_F)]


def bare():
    return [Bare(h) for h in ("list", "List", "set", "Set", "frozenset", "tuple", "dict", "Dict",
                              "collections.deque", "collections.Counter")]


# (name, builder) of the unary type constructors
def con(name):
    return {
        "Optional": lambda t: Opt(t),
        "pipe": lambda t: OptPipe(t),
        "list": lambda t: ListT(t),
        "List": lambda t: TypingListT(t),
        "Sequence": lambda t: SeqT(t),
        "MutableSequence": lambda t: MutSeqT(t),
        "deque": lambda t: DequeT(t),
        "vartuple": lambda t: VarTuple(t),
        "tuple": lambda t: TupleT(t, Int()),
        "tuple2": lambda t: TupleT(Str(), t),
        "tuple1": lambda t: TupleT(t),
        "set": lambda t: SetT(t),
        "frozenset": lambda t: FrozenSetT(t),
        "Set": lambda t: TypingSetT(t),
        "dict": lambda t: DictT(Str(), t),
        "Dict": lambda t: TypingDictT(Str(), t),
        "Mapping": lambda t: MappingT(Str(), t),
        "MutableMapping": lambda t: MutMappingT(Str(), t),
        "dictkey": lambda t: DictT(t, Int()),
        "defaultdict": lambda t: defaultdict_of(t),
        "Counter": lambda t: CounterT(t),
        "union": lambda t: union_with(t),
        "optunion": lambda t: Opt(union_with(t)),
        "alias": lambda t: Alias695("Al", t),
    }[name]


CONS = ["Optional", "list", "deque", "vartuple", "tuple", "tuple2", "set", "frozenset", "dict", "dictkey",
        "defaultdict", "Counter", "union", "optunion", "alias"]
CONS_MORE = ["pipe", "List", "Sequence", "MutableSequence", "tuple1", "Set", "Dict", "Mapping", "MutableMapping"]


def head(t):
    """The runtime constructor of values of t, to keep unions distinguishable."""
    if isinstance(t, (ListT,)) and not isinstance(t, (VarTuple, DequeT)):
        return "list"
    if isinstance(t, (VarTuple, TupleT)):
        return "tuple"
    if isinstance(t, DequeT):
        return "deque"
    if isinstance(t, FrozenSetT):
        return "frozenset"
    if isinstance(t, SetT):
        return "set"
    if isinstance(t, (DictT, CounterT)):
        return "dict"
    if isinstance(t, (Str, StrSer, Dt, Lit, EnumT, NewT, PrimSub)):
        return "str"
    if isinstance(t, Alias695):
        return head(t.t)
    return type(t).__name__


def union_with(t):
    if isinstance(t, (Opt, UnionT)) or isinstance(t, AnyT):
        return None
    h = head(t)
    if h == "str" or h == "Int":
        return UnionT(t, DictT(Str(), Int()))
    if h in ("Data", "Opaque"):
        return UnionT(t, Data(C("Other", [F("p", Int()), F("r", Bool())])))
    if h == "Alias695":
        return None
    if h in ("list", "tuple", "set", "frozenset", "deque", "dict"):
        return UnionT(t, Int())
    return UnionT(t, Str())


def defaultdict_of(t):
    fac = {"Int": int, "Str": str, "Float": float, "ListT": list, "DictT": dict, "SetT": set,
           "Data": None, "Opaque": None}.get(type(t).__name__, "no")
    if fac == "no":
        return None
    if fac is None:
        return DefaultDictT(Str(), t, t.spec.name if isinstance(t, Data) else t.name)
    return DefaultDictT(Str(), t, fac)


KEYS = (Int, Str, Float, StrSer, Dt, EnumT, NewT, Bool, Lit)


def hash_enc(t):
    """Is the encoding of t hashable (usable in a set or as a key of the encoded form)?"""
    if isinstance(t, (Data, Opaque, ListT, SetT, DictT, CounterT, Bare, AnyT)):
        return isinstance(t, VarTuple) and hash_enc(t.t)
    if isinstance(t, TupleT):
        return all(hash_enc(x) for x in t.ts)
    if isinstance(t, (Opt, Alias695)):
        return hash_enc(t.t)
    if isinstance(t, UnionT):
        return all(hash_enc(x) for x in t.ts)
    return True


def build(con_name, t):
    """Constructor applied to t, or None when the combination is not a supported type."""
    if con_name in ("set", "frozenset", "Set", "dictkey", "Counter"):
        if not t.hashable or not hash_enc(t):
            return None
    if isinstance(t, NoneT) and con_name != "union":
        return None
    if con_name == "Counter" and not isinstance(t, (Str, Int)):
        return None
    if con_name == "dictkey" and isinstance(t, (Opt, UnionT)):
        return None
    if con_name in ("Optional", "pipe") and isinstance(t, (Opt, NoneT, AnyT)):
        return None
    if con_name == "pipe" and isinstance(t, (SelfRef, Var)):
        return None
    if con_name in ("union", "optunion"):
        u = union_with(t)
        if u is None:
            return None
        return u if con_name == "union" else Opt(u)
    if con_name == "alias" and isinstance(t, (Alias695, Opt, UnionT)):
        return None
    return con(con_name)(t)


def depth1():
    out = []
    for t in leaves():
        for c in CONS + CONS_MORE:
            r = build(c, t)
            if r is not None:
                out.append(r)
    for t in more_leaves():
        for c in ("Optional", "list", "set", "dict", "dictkey", "tuple", "vartuple", "union"):
            r = build(c, t)
            if r is not None:
                out.append(r)
    return out


def depth2():
    out = []
    for t in (Int(), UUID, Opaque(), DATETIME, E_STR):
        for c in CONS:
            a = build(c, t)
            if a is None:
                continue
            for d in CONS:
                r = build(d, a)
                if r is not None:
                    out.append(r)
    return out


# ------------------------------------------------------------------ mixtures
HEADS = ["dict", "Dict", "Mapping", "MutableMapping", "defaultdict"]


def keyed():
    """Every kind of key under every kind of mapping."""
    keys = [Int(), Float(), Str(), UUID, DATE, PATH, DECIMAL, E_INT, E_STR, NewT("NInt", Int()), Bool()]
    for i, k in enumerate(keys):
        for j, v in enumerate([Int(), ListT(UUID), Opt(Float()), Opaque()]):
            for n, hd in enumerate(HEADS):
                if (i + j + n) % 2:
                    continue
                if hd == "defaultdict":
                    if isinstance(v, Opt):
                        continue
                    t = defaultdict_of(v)
                    t = DefaultDictT(k, v, t.factory)
                else:
                    t = {"dict": DictT, "Dict": TypingDictT, "Mapping": MappingT, "MutableMapping": MutMappingT}[hd](k, v)
                yield [t, Opt(t), ListT(t), DictT(Str(), t)][(i + j) % 4 if n % 3 else 0]


def random_type(rng, depth):
    for _ in range(50):
        if depth == 0:
            return rng.choice([t for t in leaves() + more_leaves() if not isinstance(t, NoneT)])
        con = rng.choice(CONS + CONS_MORE + ["tuple*", "dict*"])
        if con == "tuple*":
            return TupleT(*[random_type(rng, rng.randrange(depth)) for _ in range(rng.randrange(1, 4))])
        if con == "dict*":
            k = rng.choice([Int(), Str(), UUID, E_STR, DATETIME])
            return rng.choice([DictT, MappingT])(k, random_type(rng, rng.randrange(depth)))
        t = random_type(rng, rng.randrange(depth))
        if con == "Counter" and not isinstance(t, Str):
            continue
        if con in ("union", "optunion") and any(x in t.src() for x in ("Counter", "EStr", "EInt", "EMix")):
            continue
        r = build(con, t)
        if con == "alias" and r is not None:
            r = Alias695(f"Al{rng.randrange(10 ** 6)}", t)
        if r is not None:
            return r
    return Int()


def mixes(n, seed=11):
    """Classes of several fields of arbitrary types, with a nested class that has such fields, too."""
    rng = random.Random(seed)
    for i in range(n):
        inner = C("Mid", [F("u", random_type(rng, 1)), F("v", random_type(rng, 2))],
                  rename_all=rng.choice([None, "camelcase"]), reuse=rng.choice([None, True, False]),
                  sets=rng.choice([None, True, False]))
        t = Data(inner)
        t = rng.choice([lambda: t, lambda: ListT(t), lambda: Opt(t), lambda: DictT(Str(), t), lambda: TupleT(t, Int())])()
        fs = [F("a_one", random_type(rng, 3)), F("b_two", t), F("c_three", random_type(rng, 2))]
        rng.shuffle(fs)
        c = C("A", fs + [F("k", random_type(rng, 1))], rename_all=rng.choice([None, "kebabcase", "pascalcase"]),
                   reuse=rng.choice([None, True, False]), sets=rng.choice([None, True, False]),
                   deco=rng.choice(["serde", "serde", "pair"]), frozen=rng.random() < .2)
        c.mid_fields = inner.fields
        yield i, c
