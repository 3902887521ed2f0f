"""Covering set of class definitions: two feature fields plus class options, every pair of option
values (within the supported combinations) occurring together in at least one class.

The generator is deterministic; it lists programs, not inputs - inputs of each program stay symbolic."""
from __future__ import annotations
import itertools, random
from .types import *
from .catalog import SMALL, SMALL_F

TYPES = {
    # name: (type, immutable default source, factory source, skip_if source + predicate on the encoded value)
    "int": (lambda: Int(), "7", "lambda: 7", ("lambda v: v == 3", lambda v: v == 3)),
    "str": (lambda: Str(), "'dflt'", "lambda: 'dflt'", ("lambda v: v == 'no'", lambda v: v == "no")),
    "bool": (lambda: Bool(), "True", "lambda: False", ("lambda v: v is True", lambda v: v is True)),
    "float": (lambda: Float(), "1.5", "lambda: 2.5", ("lambda v: v == 0.5", lambda v: v == 0.5)),
    "opt": (lambda: Opt(Int()), "None", "lambda: None", ("lambda v: v is None", lambda v: v is None)),
    "optd": (lambda: Opt(Str()), "'dd'", "lambda: 'df'", ("lambda v: v is None", lambda v: v is None)),
    "list": (lambda: ListT(Str()), None, "list", ("lambda v: len(v) == 0", lambda v: len(v) == 0)),
    "set": (lambda: SetT(Int()), None, "set", ("lambda v: len(v) == 0", lambda v: len(v) == 0)),
    "dict": (lambda: DictT(Str(), Opaque()), None, "dict", ("lambda v: len(v) == 0", lambda v: len(v) == 0)),
    "tuple": (lambda: TupleT(Int(), UUID), "(1, uuid.UUID(int=5))", "lambda: (2, uuid.UUID(int=6))",
              ("lambda v: v[0] == 3", lambda v: v[0] == 3)),
    "dt": (lambda: DATETIME, "datetime.datetime(2020, 1, 2, 3, 4, 5)", "lambda: datetime.datetime(2021, 1, 2)",
           ("lambda v: v is None", lambda v: v is None)),
    "enum": (lambda: E_STR, "EStr.X", "lambda: EStr.Y", ("lambda v: v == 'x'", lambda v: v == "x")),
    "union": (lambda: UnionT(Int(), Str()), "5", "lambda: 'u'", ("lambda v: v == 3", lambda v: v == 3)),
    "kid": (lambda: Opaque(), "Kid(3)", "lambda: Kid(4)", ("lambda v: v is None", lambda v: v is None)),
    "data": (lambda: Data(SMALL_F), "InnerF(1, 'a')", "lambda: InnerF(2, 'b')",
             ("lambda v: v is None", lambda v: v is None)),
    "udata": (lambda: UnionT(Data(SMALL_F), Str()), "'w'", "lambda: InnerF(2, 'b')",
              ("lambda v: v == 'no'", lambda v: v == "no")),
    "optlist": (lambda: Opt(ListT(DATETIME)), "None", "list", ("lambda v: v is None", lambda v: v is None)),
}

RENAMES = [None, "camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "upperkebabcase"]
NAMING = ["none", "rename", "alias", "both"]
DEFAULT = ["none", "default", "factory"]
SKIP = ["none", "skip_if", "skip_if_false", "skip_if_none", "skip_if_default", "skip", "skip_serializing",
        "skip_deserializing", "none_and_default"]
MISC = ["none", "kw_only", "noinit", "custom"]
CLASS = {
    "rename_all": RENAMES,
    "deny": [False, True],
    "tc": [None, "coerce", "disabled"],
    "shape": ["plain", "frozen", "slots", "kw_only"],
    "deco": ["serde", "pair"],
    "reuse": [None, True, False],
    "sets": [None, True, False],
    "sin": [False, True],
    "sid": [False, True],
}


def dims():
    d = {}
    for p in ("x", "y"):
        d[p + ".type"] = list(TYPES)
        d[p + ".naming"] = NAMING
        d[p + ".default"] = DEFAULT
        d[p + ".skip"] = SKIP
        d[p + ".misc"] = MISC
    d.update(CLASS)
    return d


def repair(r):
    """Make a row a supported program."""
    for p in ("x", "y"):
        t = r[p + ".type"]
        need = (r[p + ".skip"] in ("skip", "skip_deserializing", "skip_serializing", "skip_if_default",
                                   "none_and_default", "skip_if", "skip_if_false")
                or r[p + ".misc"] == "noinit")
        if need and r[p + ".default"] == "none":
            r[p + ".default"] = "default"
        if r[p + ".default"] == "default" and TYPES[t][1] is None:
            r[p + ".default"] = "factory"
        if r[p + ".misc"] == "custom" and t not in ("int", "str"):
            r[p + ".misc"] = "none"
        if r["shape"] == "slots" and r[p + ".misc"] == "noinit":
            r[p + ".misc"] = "none"
    if r["deco"] == "pair":
        pass
    return r


CUSTOM = {
    "int": (("lambda v: str(v)", lambda h, v: text_of(v)), ("lambda v: int(v)", None)),
    "str": (("lambda v: [v]", lambda h, v: boxed(v)), ("lambda v: v[0]", None)),
}


def make_field(r, p, name):
    t = r[p + ".type"]
    mk, dflt, fac, pred = TYPES[t]
    kw = {}
    nm = r[p + ".naming"]
    if nm in ("rename", "both"):
        kw["rename"] = f"ren-{p}" if p == "x" else "renY"
    if nm in ("alias", "both"):
        kw["alias"] = [f"{p}_al1", f"{p}Al2"]
    d = r[p + ".default"]
    if d == "default":
        kw["default"] = dflt
    elif d == "factory":
        kw["factory"] = fac
    s = r[p + ".skip"]
    if s == "skip_if":
        kw["skip_if"] = pred
    elif s in ("skip_if_false", "skip_if_none", "skip_if_default"):
        kw[s] = True
    elif s == "none_and_default":
        kw["skip_if_none"] = kw["skip_if_default"] = True
    elif s != "none":
        kw[s] = True
    m = r[p + ".misc"]
    if m == "kw_only":
        kw["kw_only"] = True
    elif m == "noinit":
        kw["init"] = False
    elif m == "custom":
        kw["serializer"], kw["deserializer"] = CUSTOM[t]
    return F(name, mk(), **kw)


def make_class(r, i, name="A"):
    x, y = make_field(r, "x", "foo_bar"), make_field(r, "y", "baz")
    fs = [F("head_id", Int())]
    # fields without default first, unless keyword-only
    free = lambda f: not f.has_default() or f.kw_only or r["shape"] == "kw_only" or not f.init
    order = [x, y] if i % 2 else [y, x]
    lead = [f for f in order if free(f)]
    rest = [f for f in order if not free(f)]
    fs += lead + [F("mid_val", Str())] + rest + [F("opt_last", Opt(Int()), default="None")]
    sh = r["shape"]
    c = C(name, fs, rename_all=r["rename_all"], deny=r["deny"], type_check=r["tc"], reuse=r["reuse"],
          sets=r["sets"], skip_if_none=r["sin"], skip_if_default=r["sid"], deco=r["deco"],
          frozen=sh == "frozen", slots=sh == "slots", kw_only=sh == "kw_only")
    c.row = r
    return c


_rows = None


def rows(seed=7):
    """Greedy pairwise covering array."""
    global _rows
    if _rows is not None:
        return _rows
    d = dims()
    names = list(d)
    rng = random.Random(seed)

    def pairs(r):
        return {(a, r[a], b, r[b]) for a, b in itertools.combinations(names, 2)}
    missing = {(a, u, b, v) for a, b in itertools.combinations(names, 2) for u in d[a] for v in d[b]}
    out = []
    stale = 0
    while missing and stale < 60:
        best, gain = None, 0
        todo = list(missing)
        todo.sort(key=repr)
        for _ in range(30):
            r = {n: rng.choice(d[n]) for n in names}
            for a, u, b, v in rng.sample(todo, min(4, len(todo))):
                r[a], r[b] = u, v
            r = repair(r)
            g = len(pairs(r) & missing)
            if g > gain:
                best, gain = r, g
        if best is None:
            stale += 1
            continue
        missing -= pairs(best)
        out.append(best)
        if len(out) >= 240:
            break
    _rows = out
    return out


def classes():
    return [make_class(r, i) for i, r in enumerate(rows())]
