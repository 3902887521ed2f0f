"""Environments a contract harness runs in.

`SymEnv`: every input is symbolic, `same`/`check`/`fail` emit proof obligations.
`NatEnv`: CPython on concrete inputs (random, or the recorded counterexample), used to replay
counterexamples, to cross-check the models, and for the bounded stand-ins."""
from __future__ import annotations
import builtins, collections, collections.abc, copy, dataclasses, datetime, decimal, enum, math, pathlib, random, string, types
import uuid
from . import types as VT


class Mismatch(Exception):
    """A contract clause is false on a concrete run."""

    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class Discard(Exception):
    """The concrete input does not satisfy a precondition."""


class Raised:
    def __init__(self, exc):
        self.exc = exc


class BaseEnv:
    def __init__(self, case):
        self.case = case
        self.mod = case.module() if case is not None else None
        self.arm = {}
        self.rec = {}
        self.cur_class = None
        self.in_rec = 0
        self.ghost = {}
        self.bind = {}

    # --- lookups
    def cls(self, name):
        return getattr(self.mod, name)

    def spec(self, name):
        return self.case.specs[name]

    def evaluate(self, src):
        return eval(src, vars(self.mod))

    def default_of(self, f):
        if f.factory is not None:
            return self.evaluate(f.factory)()
        if f.default is not None:
            return self.evaluate(f.default)
        raise AssertionError(f"field {f.name} has no default")

    def tag(self, enc, name):
        t = self.cur_class.tagging if self.cur_class is not None else None
        return apply_tag(t, enc, name)

    def text(self, fmt, doc):
        """The text of a document in a format (written by the format library)."""
        import json, msgpack, tomli_w, yaml
        f = {"json": json.dumps, "msgpack": msgpack.packb, "yaml": yaml.safe_dump, "toml": tomli_w.dumps}[fmt]
        from . import models
        if self.symbolic:
            return models.vc_call(f, doc)
        return f(doc)

    def num(self, w):
        from . import spec
        return spec.convert("float", w)

    def isa(self, v, t):
        """Does v satisfy the annotation, by the dynamic class of v (elements of fixed-size structures
        included, elements of unbounded collections not)?"""
        return isa(self, v, t)

    # --- convenience
    def call(self, fn, *a, **k):
        """Run the code under verification; a normal exception becomes a `Raised` value."""
        try:
            return fn(*a, **k)
        except Exception as e:      # noqa
            return Raised(e)

    def ok(self, r, label):
        """The call must have returned normally."""
        if type(r) is Raised:
            self.fail(label, f"raised {type(r.exc).__name__}: {str(r.exc)[:300]}")
        return r

    def raises(self, r, exc, label, contains=()):
        if type(r) is not Raised:
            self.fail(label, "no exception")
        if not isinstance(r.exc, exc):
            self.fail(label, f"raised {type(r.exc).__name__} instead of {exc.__name__}: {str(r.exc)[:200]}")
        for s in contains:
            if s not in str(r.exc):
                self.fail(label + "/message", f"{s!r} not in the error text {str(r.exc)[:200]!r}")
        self.check(True, label)


EXTERNAL, INTERNAL, ADJACENT, UNTAGGED = "ExternalTagging", "InternalTagging", "AdjacentTagging", "Untagged"


def apply_tag(tagging, enc, name):
    """Documented representation of a dataclass held by a union."""
    t = (tagging or EXTERNAL).replace(" ", "")
    if t.startswith(INTERNAL):
        key = t[len(INTERNAL):].strip("()'\"") or "type"
        r = {key: name}
        for k, v in enc.items():
            r[k] = v
        return r
    if t.startswith(ADJACENT):
        args = [a.strip("'\"") for a in t[len(ADJACENT):].strip("()").split(",") if a]
        tag, content = (args + ["type", "content"][len(args):]) if args else ("type", "content")
        return {tag: name, content: enc}
    if t == UNTAGGED:
        return enc
    return {name: enc}


# --------------------------------------------------------------------------- concrete
class NatEnv(BaseEnv):
    symbolic = False

    def __init__(self, case, seed=0, replay=None, edge=0.25):
        super().__init__(case)
        self.rng = random.Random(seed)
        self.edge = edge
        self.replay = None if replay is None else list(replay)
        self.inputs = []
        self.size = 0
        self.checks = 0
        self.covers = set()

    # recorded inputs
    def value(self, t):
        if self.replay is not None:
            if not self.replay:
                raise Discard("replay exhausted")
            v = self.replay.pop(0)
        else:
            v = t.gen(self)
        self.inputs.append(snapshot(v))
        return v

    def pick(self, n):
        if self.replay is not None:
            v = self.replay.pop(0)
        else:
            v = self.rng.randrange(n)
        self.inputs.append(v)
        return v

    def assume(self, c):
        if not c:
            raise Discard("precondition")

    def cover(self, name):
        self.covers.add(name)

    # generators
    def choose(self, n):
        return 0 if self.in_rec else self.rng.randrange(n)

    def int_(self, cls=int):
        r = self.rng
        v = r.choice([0, 1, -1, 2, 7, 255, -2**31, 2**31, 2**53 + 1]) if r.random() < self.edge else r.randint(-1000, 1000)
        return v if cls is int else cls(v)

    def str_(self, cls=str):
        r = self.rng
        if r.random() < self.edge:
            v = r.choice(["", "a", "0", "-1", "1.5", "true", "null", "None", "~", "type", "é\u4e2d", "a b", "x:y", "- z",
                          "2020-01-01", "\n", "\t", "'", '"', "{}", "1e3", "#", "\\", "\u2028", "10:30:00"])
        else:
            v = "".join(r.choice(string.ascii_letters + string.digits + "_- ") for _ in range(r.randint(1, 8)))
        return v if cls is str else cls(v)

    def float_(self, cls=float):
        r = self.rng
        v = r.choice([0.5, 1.0, -2.0, 1e16, 1e-9, 0.0]) if r.random() < self.edge else round(r.uniform(-1e3, 1e3), 4)
        return v if cls is float else cls(v)

    def obj(self, cls):
        return concrete_obj(self.rng, cls)

    def _n(self):
        return self.rng.choice([0, 1, 2, 3])

    def list_(self, ctor, make):
        if self.in_rec:
            return ctor([])
        return ctor([make() for _ in range(self._n())])

    def set_(self, ctor, make):
        if self.in_rec:
            return ctor([])
        return ctor([make() for _ in range(self._n())])

    def map_(self, ctor, mk, mv):
        d = ctor()
        if self.in_rec:
            return d
        for _ in range(self._n()):
            k = mk()
            dict.__setitem__(d, k, mv())
        return d

    def fresh_int(self, known):
        while True:
            k = self.int_()
            if k not in known:
                return k

    def fresh_key(self, known):
        while True:
            k = self.str_() if self.rng.random() < 0.5 else "k%d" % self.rng.randint(0, 9)
            if k not in known:
                return k

    def extras(self, known, val, some, ints=False):
        d = {}
        for _ in range(self.rng.choice([1, 2] if some else [0, 1, 2])):
            d[(self.fresh_int if ints else self.fresh_key)(known)] = val.gen(self)
        return d

    def reference(self, name):
        """Values of recursive classes are cut off at a depth of three."""
        lvl = self.rec.get("", 0)
        self.rec[""] = lvl + 1
        self.in_rec = int(lvl >= 2)
        try:
            return self.spec(name).gen(self)
        finally:
            self.rec[""] = lvl
            self.in_rec = int(lvl > 2)

    def reference_enc(self, name, v, o):
        return self.spec(name).enc(self, v, o)

    def opaque(self, name):
        return self.cls(name)(self.rng.randint(-50, 50))

    def opaque_enc(self, name, v, o):
        return {"k": v.k} if o.named else (v.k,)

    def inhabits(self, v, t):
        return inhabits(self, v, t)

    def equal_values(self, a, b):
        return type(a) is type(b) and a == b

    # obligations
    def check(self, c, label, detail=""):
        self.checks += 1
        if not c:
            raise Mismatch(label, detail)

    def fail(self, label, detail=""):
        raise Mismatch(label, detail)

    def same(self, a, b, label, order=False):
        self.checks += 1
        d = difference(a, b, order)
        if d:
            raise Mismatch(label, d)

    def shared(self, v):
        return snapshot(v)


def concrete_obj(r, cls):
    if cls is uuid.UUID:
        return uuid.UUID(int=r.getrandbits(128))
    if issubclass(cls, pathlib.PureWindowsPath):
        return cls("c:\\" + r.choice(["a", "b\\c", "x y"]))
    if issubclass(cls, pathlib.PurePath):
        return cls(r.choice(["/", ".", "/a/b", "rel/x", "/tmp/x y", "/p%d" % r.randint(0, 99)]))
    if cls is decimal.Decimal:
        return decimal.Decimal(r.choice(["0", "1.10", "-3.25", "1E+5", "%d.5" % r.randint(0, 99)]))
    if cls is datetime.datetime:
        tz = r.choice([None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30))])
        return datetime.datetime(2000 + r.randint(0, 30), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
                                 r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 123456, 500000]), tz)
    if cls is datetime.date:
        return datetime.date(2000 + r.randint(0, 30), r.randint(1, 12), r.randint(1, 28))
    if cls is datetime.time:
        return datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 123000]))
    if cls is bytes:
        return bytes(r.getrandbits(8) for _ in range(r.randint(0, 4)))
    from .engine import REP_POOL
    if cls in REP_POOL:
        return r.choice(REP_POOL[cls])
    if hasattr(cls, "_vc_concrete"):
        return cls._vc_concrete(r)
    raise AssertionError(f"no concrete generator for {cls}")


def inhabits(h, v, t):
    """Structural membership of a value in a type descriptor (runtime classes, all elements)."""
    if isinstance(t, VT.Bool):
        return type(v) is bool
    if isinstance(t, VT.Int):
        return type(v) is int
    if isinstance(t, VT.Float):
        return type(v) is float
    if isinstance(t, VT.Str):
        return type(v) is str
    if isinstance(t, VT.NoneT):
        return v is None
    if isinstance(t, VT.StrSer):
        return type(v) is t.inst
    if isinstance(t, VT.Dt):
        return type(v) is t.cls
    if isinstance(t, VT.EnumT):
        return type(v) is h.cls(t.name)
    if isinstance(t, VT.Lit):
        return any(type(v) is type(x) and v == x for x in t.vals)
    if isinstance(t, VT.NewT):
        return inhabits(h, v, t.base)
    if isinstance(t, VT.PrimSub):
        return type(v) is h.cls(t.name)
    if isinstance(t, VT.Alias695):
        return inhabits(h, v, t.t)
    if isinstance(t, VT.Opt):
        return v is None or inhabits(h, v, t.t)
    if isinstance(t, VT.SetT):
        return isinstance(v, t.ctor) and all(inhabits(h, x, t.t) for x in v)
    if isinstance(t, VT.ListT):
        return isinstance(v, t.ctor) and all(inhabits(h, x, t.t) for x in v)
    if isinstance(t, VT.TupleT):
        return isinstance(v, tuple) and len(v) == len(t.ts) and all(inhabits(h, x, e) for x, e in zip(v, t.ts))
    if isinstance(t, VT.CounterT):
        return isinstance(v, collections.Counter)
    if isinstance(t, VT.DictT):
        return isinstance(v, dict) and all(inhabits(h, k, t.k) and inhabits(h, x, t.v) for k, x in v.items())
    if isinstance(t, VT.UnionT):
        return any(inhabits(h, v, a) for a in t.ts)
    if isinstance(t, VT.Data):
        return type(v) is h.cls(t.spec.name)
    if isinstance(t, VT.Opaque):
        return type(v) is h.cls(t.name)
    if isinstance(t, VT.SelfRef):
        return type(v) is h.cls(t.name)
    if isinstance(t, VT.AnyT):
        return True
    raise AssertionError(f"inhabits: {t!r}")


def class_of(v):
    c = getattr(v, "pycls", None)
    if c is not None and not isinstance(v, type):
        return c
    return bool if type(v).__name__ == "SymBool" else type(v)


ABSTRACT = {"Sequence": collections.abc.Sequence, "MutableSequence": collections.abc.MutableSequence,
            "Mapping": collections.abc.Mapping, "MutableMapping": collections.abc.MutableMapping,
            "collections.defaultdict": collections.defaultdict, "collections.Counter": collections.Counter}


BARE = {"Sequence": collections.abc.Sequence, "Mapping": collections.abc.Mapping, "deque": collections.deque,
        "MutableSequence": collections.abc.MutableSequence, "MutableMapping": collections.abc.MutableMapping,
        "MutableSet": collections.abc.MutableSet, "Counter": collections.Counter, "defaultdict": collections.defaultdict}


def isa(h, v, t):
    c = class_of(v)
    prim = {VT.Int: int, VT.Str: str, VT.Float: float, VT.Bool: bool}.get(type(t))
    if prim is not None:
        return issubclass(c, prim)
    if isinstance(t, VT.NoneT):
        return v is None
    if isinstance(t, VT.StrSer):
        return issubclass(c, t.cls)
    if isinstance(t, VT.Dt):
        return issubclass(c, t.cls)
    if isinstance(t, (VT.EnumT, VT.PrimSub, VT.Opaque, VT.SelfRef)):
        return issubclass(c, h.cls(t.name))
    if isinstance(t, VT.Lit):
        return any(issubclass(c, type(x)) and bool(v == x) for x in t.vals)
    if isinstance(t, VT.NewT):
        return isa(h, v, t.base)
    if isinstance(t, VT.Alias695):
        return isa(h, v, t.t)
    if isinstance(t, VT.Opt):
        return v is None or isa(h, v, t.t)
    if isinstance(t, VT.UnionT):
        return any(isa(h, v, a) for a in t.ts)
    if isinstance(t, (VT.Data, VT.Gen)):
        if not issubclass(c, h.cls(t.spec.name)):
            return False
        return all(isa(h, getattr(v, f.name), f.t) for f in t.spec.all_fields()) if type(t) is VT.Data else True
    if isinstance(t, VT.TupleT):
        return issubclass(c, tuple) and not any(type(x).__name__ == "Seg" for x in v) and len(v) == len(t.ts) \
            and all(isa(h, x, e) for x, e in zip(v, t.ts))
    if isinstance(t, (VT.ListT, VT.SetT, VT.DictT, VT.CounterT)):
        return issubclass(c, ABSTRACT.get(t.head, getattr(t, "ctor", object)))
    if isinstance(t, VT.Bare):
        name = t.head.split(".")[-1]
        return issubclass(c, BARE.get(name) or getattr(builtins, name.lower()))
    if isinstance(t, VT.AnyT):
        return True
    raise AssertionError(f"isa: {t!r}")


def dc_state(x):
    # a default of an init=False field lives on the class
    r = {f: getattr(x, f) for f, d in type(x).__dataclass_fields__.items()
         if hasattr(x, f) and getattr(d, "_field_type", None) is dataclasses._FIELD}
    for k, v in (getattr(x, "__dict__", None) or {}).items():
        r.setdefault(k, v)
    return r


def snapshot(x):
    """Copy of the container structure; scalars are shared."""
    t = type(x)
    if isinstance(x, type):
        return x
    if t is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if t in (list, tuple, set, frozenset, collections.deque):
        if t is collections.deque:
            return collections.deque((snapshot(e) for e in x), x.maxlen)
        return t([snapshot(e) for e in x])
    if t is collections.defaultdict:
        r = collections.defaultdict(x.default_factory)
        for k, v in x.items():
            dict.__setitem__(r, k, snapshot(v))
        return r
    if t is collections.Counter:
        r = collections.Counter()
        for k, v in x.items():
            dict.__setitem__(r, k, v)
        return r
    if hasattr(t, "__dataclass_fields__"):
        o = object.__new__(t)
        for k, v in dc_state(x).items():
            object.__setattr__(o, k, snapshot(v))
        return o
    s = getattr(t, "_vc_snapshot", None)
    if s is not None:
        return s(x, snapshot)
    return x


def difference(a, b, order=False, path="$"):
    """First difference between two concrete values: classes, structure and contents."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        return f"{path}: {ta.__name__} {_r(a)} is not {tb.__name__} {_r(b)}"
    if ta in (list, tuple, collections.deque):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {_r(a)} != {_r(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, order, f"{path}[{i}]")
            if d:
                return d
        if ta is collections.deque and a.maxlen != b.maxlen:
            return f"{path}: maxlen"
        return None
    if ta in (set, frozenset):
        if a != b:
            return f"{path}: {_r(a)} != {_r(b)}"
        # classes of the elements as well
        if sorted(type(x).__name__ for x in a) != sorted(type(x).__name__ for x in b):
            return f"{path}: element classes differ: {_r(a)} != {_r(b)}"
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {_r(list(a))} != {_r(list(b))}"
        bk = {k: k for k in b}
        for k in a:
            d = difference(k, bk[k], order, f"{path}.key") or difference(a[k], b[k], order, f"{path}[{k!r}]")
            if d:
                return d
        if order and list(a) != list(b):
            return f"{path}: key order {_r(list(a))} != {_r(list(b))}"
        if ta is collections.defaultdict and a.default_factory is not b.default_factory:
            return f"{path}: default_factory {a.default_factory} is not {b.default_factory}"
        return None
    if hasattr(ta, "__dataclass_fields__"):
        return difference(dc_state(a), dc_state(b), order, f"{path}:{ta.__name__}")
    if ta is float and a != a and b != b:
        return None
    if ta is float and a == b == 0 and math.copysign(1, a) != math.copysign(1, b):
        return f"{path}: sign of zero"
    if a is b:
        return None
    try:
        if a == b:
            return None
    except Exception as e:
        return f"{path}: comparison raised {e!r}"
    return f"{path}: {_r(a)} != {_r(b)}"


def _r(x):
    try:
        s = repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    return s if len(s) < 160 else s[:157] + "..."


# --------------------------------------------------------------------------- symbolic
class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, case):
        super().__init__(case)
        from . import engine
        self.E = engine
        self.c = engine.ctx()

    def value(self, t):
        v = t.gen(self)
        self.c.inputs.append(snapshot(v))
        return v

    def pick(self, n):
        v = self.c.choose(n)
        self.c.inputs.append(v)
        return v

    def assume(self, c):
        if type(c) is self.E.SymBool:
            self.c.assume(c)
        elif not c:
            raise self.E.PathInfeasible()

    def cover(self, name):
        self.c.notes[name] = 1

    def choose(self, n):
        self.c.nd += n > 1
        return self.c.choose(n)

    def int_(self, cls=int):
        import z3
        return self.E.SymInt(z3.Int(self.c.fresh("i")), cls)

    def str_(self, cls=str):
        import z3
        return self.E.SymStr(z3.String(self.c.fresh("s")), cls)

    def float_(self, cls=float):
        import z3
        return self.E.SymFloat(z3.Const(self.c.fresh("f"), self.E.Fsort), cls)

    def obj(self, cls):
        import z3
        k = self.E.SymBytes if cls is bytes else self.E.SymObj
        return k(z3.Const(self.c.fresh("o"), self.E.objsort(cls)), cls)

    def _some(self):
        return 0 if self.in_rec else self.choose(2)

    def list_(self, ctor, make):
        if not self._some():
            return ctor([])
        b = self.E.Base(self.c.fresh("list"), make)
        return ctor([self.E.Seg(b, b.first())])

    def set_(self, ctor, make):
        if not self._some():
            return ctor([])
        b = self.E.Base(self.c.fresh("set"), make)
        return ctor([self.E.Seg(b, b.first())])

    def map_(self, ctor, mk, mv):
        d = ctor()
        if not self._some():
            return d
        b = self.E.Base(self.c.fresh("map"), lambda: (mk(), mv()))
        k, v = b.first()
        b.gen = (k, v)
        dict.__setitem__(d, self.E.GKey(b, k), v)
        return d

    def fresh_int(self, known):
        k = self.int_()
        for n in known:
            self.assume(k != n)
        return k

    def fresh_key(self, known):
        k = self.str_()
        for n in known:
            self.assume(k != n)
        return k

    def extras(self, known, val, some, ints=False):
        d = {}
        if not some and not self._some():
            return d
        b = self.E.Base(self.c.fresh("extras"), lambda: ((self.fresh_int if ints else self.fresh_key)(known), val.gen(self)))
        k, v = b.first()
        b.gen = (k, v)
        dict.__setitem__(d, self.E.GKey(b, k, frozenset(known)), v)
        return d

    def reference(self, name):
        cls = self.cls(name)
        if cls not in _installed:
            nat = NatEnv(self.case, 11)
            install_contract(self, cls, [nat.reference(name) for _ in range(8)])
        return self.obj(cls)

    def reference_enc(self, name, v, o):
        if isinstance(v, self.E.Sym):
            return enc_contract(self.E, self.cls(name), v, o.named, o.reuse, o.sets, o.skip_none)
        return self.spec(name).enc(self, v, o)

    def opaque(self, name):
        cls = self.cls(name)
        install_contract(self, cls)
        return self.obj(cls)

    def opaque_enc(self, name, v, o):
        if not isinstance(v, self.E.Sym):
            return {"k": v.k} if o.named else (v.k,)
        return enc_contract(self.E, self.cls(name), v, o.named, o.reuse, o.sets, o.skip_none)

    def inhabits(self, v, t):
        return inhabits_sym(self, v, t)

    def equal_values(self, a, b):
        E = self.E
        if isinstance(a, E.Sym) or isinstance(b, E.Sym):
            x, y = (a, b) if isinstance(a, E.Sym) else (b, a)
            cx = x.pycls if isinstance(x, E.SymV) else bool
            cy = y.pycls if isinstance(y, E.SymV) else type(y)
            if cx is not cy:
                return False
            return bool(x == y)
        if E.deep_symbolic(a) or E.deep_symbolic(b):
            if type(a) is not type(b):
                return False
            if isinstance(a, (list, tuple, dict, set, frozenset)):
                if (len(a) == 0) != (len(b) == 0):
                    return False
            if has_markers(E, a) or has_markers(E, b):
                raise E.Unsupported("equality of unbounded containers in the specification")
            return bool(a == b)
        return type(a) is type(b) and a == b

    def check(self, c, label, detail=""):
        if c is False:
            self.c.fail(label, detail)
        else:
            self.c.prove(c, label)

    def fail(self, label, detail=""):
        self.c.fail(label, detail)
        raise self.E.PathInfeasible()

    def shared(self, v):
        return snapshot(v)

    def same(self, a, b, label, order=False):
        Same(self, label, order).go(a, b, "$")


def has_markers(E, x):
    t = type(x)
    if t is E.Seg or t is E.GKey:
        return True
    if isinstance(x, dict):
        return any(has_markers(E, k) or has_markers(E, v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)) and not isinstance(x, E.Sym):
        return any(has_markers(E, v) for v in x)
    if hasattr(t, "__dataclass_fields__") and not isinstance(x, type):
        return any(has_markers(E, v) for v in dc_state(x).values())
    return False


class Same:
    def __init__(self, h, label, order):
        self.h, self.E, self.label, self.order = h, h.E, label, order

    def no(self, path, why):
        self.h.fail(f"{self.label}", f"{path}: {why}")

    def go(self, a, b, path):
        E = self.E
        if a is b and not isinstance(a, (list, dict, set, tuple)):
            self.h.c.obligations.append((self.label, "ground"))
            return
        ta, tb = type(a), type(b)
        if issubclass(ta, E.Sym) or issubclass(tb, E.Sym):
            if ta is E.Seg or tb is E.Seg:
                self.no(path, "element vs collection")
            x, y = (a, b) if issubclass(ta, E.Sym) else (b, a)
            cx = x.pycls if isinstance(x, E.SymV) else bool
            cy = y.pycls if isinstance(y, E.SymV) else (bool if type(y) is E.SymBool else type(y))
            if cx is not cy:
                self.no(path, f"{_cn(a)} is not {_cn(b)}")
            r = x == y
            if r is False:
                self.no(path, f"{_cn(a)} {a!r} != {b!r}")
            self.h.c.prove(r, self.label)
            return
        if ta is not tb:
            self.no(path, f"{_cn(a)} {_r(a)} is not {_cn(b)} {_r(b)}")
        if ta in (list, tuple, collections.deque):
            self.seq(a, b, path)
            return
        if ta in (set, frozenset):
            self.set(a, b, path)
            return
        if isinstance(a, dict):
            self.map(a, b, path)
            return
        if hasattr(ta, "__dataclass_fields__"):
            self.map(dc_state(a), dc_state(b), path + ":" + ta.__name__)
            return
        if ta is E.Seg or ta is E.GKey:
            raise E.Unsupported("marker compared")
        d = difference(a, b, self.order, path)
        if d:
            self.no(path, d)
        self.h.c.obligations.append((self.label, "ground"))

    def seg(self, x, y, path):
        if x.base is not y.base:
            self.no(path, f"elements of {x.base.name} vs {y.base.name}")
        if x.base.tainted and x.elem is not y.elem:
            raise self.E.Unsupported("element-dependent exception inside an unbounded collection")
        self.go(x.elem, y.elem, path + "[*]")

    def seq(self, a, b, path):
        E = self.E
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.no(path, f"different shapes: {_r(a)} vs {_r(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            if (type(x) is E.Seg) != (type(y) is E.Seg):
                self.no(path, "different shapes")
            if type(x) is E.Seg:
                self.seg(x, y, path)
            else:
                self.go(x, y, f"{path}[{i}]")
        self.h.c.obligations.append((self.label, "ground"))

    def set(self, a, b, path):
        E = self.E
        sa, sb = [x for x in a if type(x) is E.Seg], [x for x in b if type(x) is E.Seg]
        ca, cb = {x for x in a if type(x) is not E.Seg}, {x for x in b if type(x) is not E.Seg}
        if len(sa) != len(sb) or ca != cb:
            self.no(path, f"different elements: {_r(a)} vs {_r(b)}")
        for x, y in zip(sa, sb):
            self.seg(x, y, path)
        self.h.c.obligations.append((self.label, "ground"))

    def map(self, a, b, path):
        E = self.E
        ga, gb = [k for k in a if type(k) is E.GKey], [k for k in b if type(k) is E.GKey]
        ca, cb = [k for k in a if type(k) is not E.GKey], [k for k in b if type(k) is not E.GKey]
        if set(ca) != set(cb):
            self.no(path, f"keys {_r(ca)} vs {_r(cb)}")
        if self.order and ca != cb:
            self.no(path, f"key order {_r(ca)} vs {_r(cb)}")
        if len(ga) != len(gb):
            self.no(path, f"different generic entries {ga} vs {gb}")
        types_b = {k: type(k) for k in cb}
        for k in ca:
            if types_b[k] is not type(k):
                self.no(path, f"class of key {k!r}")
            self.go(a[k], b[k], f"{path}[{k!r}]")
        for x in ga:
            m = [y for y in gb if y.base is x.base]
            if not m:
                self.no(path, "entries of different mappings")
            y = m[0]
            if x.base.tainted and not (x.key is y.key and a[x] is b[y]):
                raise E.Unsupported("element-dependent exception inside an unbounded mapping")
            self.go(x.key, y.key, path + ".key")
            self.go(a[x], b[y], path + "[*]")
        if type(a) is collections.defaultdict and a.default_factory is not b.default_factory:
            self.no(path, "default_factory")
        self.h.c.obligations.append((self.label, "ground"))


def _cn(x):
    from .engine import SymV
    return x.pycls.__name__ if isinstance(x, SymV) else type(x).__name__


def inhabits_sym(h, v, t):
    """Class-directed membership (enough to select the arm of a union)."""
    from . import engine as E
    if isinstance(t, (VT.ListT, VT.SetT, VT.DictT, VT.CounterT)):
        ctor = getattr(t, "ctor", collections.Counter)
        if not isinstance(v, ctor):
            return False
        for x in (v.items() if isinstance(v, dict) else v):
            if type(x) is E.Seg:
                return inhabits_sym(h, x.elem, t.t)
            if type(x) is tuple and type(x[0]) is E.GKey:
                return inhabits_sym(h, x[0].key, t.k) and inhabits_sym(h, x[1], t.v)
        return True
    if isinstance(t, VT.Opt):
        return v is None or inhabits_sym(h, v, t.t)
    if isinstance(t, VT.UnionT):
        return any(inhabits_sym(h, v, a) for a in t.ts)
    if isinstance(t, VT.TupleT):
        return (isinstance(v, tuple) and len(v) == len(t.ts) and not any(type(x) is E.Seg for x in v)
                and all(inhabits_sym(h, x, e) for x, e in zip(v, t.ts)))
    if isinstance(t, VT.Alias695):
        return inhabits_sym(h, v, t.t)
    if isinstance(t, VT.Lit):
        return not isinstance(v, E.Sym) and inhabits(h, v, t)
    if isinstance(v, E.SymV):
        c = v.pycls
        if isinstance(t, VT.NewT):
            return inhabits_sym(h, v, t.base)
        want = {VT.Int: int, VT.Str: str, VT.Float: float}.get(type(t))
        if want is None:
            if isinstance(t, VT.StrSer):
                want = t.inst
            elif isinstance(t, VT.Dt):
                want = t.cls
            elif isinstance(t, VT.Opaque):
                want = h.cls(t.name)
            elif isinstance(t, VT.PrimSub):
                want = h.cls(t.name)
            elif isinstance(t, VT.AnyT):
                return True
        return c is want
    return inhabits(h, v, t)


# --------------------------------------------------------------------------- contracts of opaque classes
class KidEnc:
    """Class of the (unknown) contents of the encoding of an opaque class."""


def enc_contract(E, cls, v, named, reuse, sets, skip_none):
    n = E.sort_name(cls) + f"_{int(named)}{int(bool(reuse))}{int(bool(sets))}{int(bool(skip_none))}"
    f = E.uf("enc_" + n, E.objsort(cls), E.objsort(KidEnc))
    g = E.uf("dec_" + E.sort_name(cls), E.objsort(KidEnc), E.objsort(cls))
    t = f(v.e)
    E.ctx().axiom(("enc", n, v.e.get_id()), g(t) == v.e)
    E.ctx().keep.append(v.e)
    x = E.SymObj(t, KidEnc)
    return {"k": x} if named else (x,)


_installed = {}


def install_contract(h, cls, pool=None):
    """Replace the generated functions of an opaque class by their contract (callers are checked
    against the contract, not the body)."""
    if cls in _installed:
        return
    from . import engine as E, models
    funcs = cls.__serde__.funcs
    E.REP_POOL[cls] = pool or [cls(i + 1) for i in range(8)]
    real = dict(funcs)
    _installed[cls] = real

    def se(named):
        key = "to_dict" if named else "to_iter"

        def to(obj, reuse_instances=None, convert_sets=None, skip_none=False, **kw):
            if not isinstance(obj, cls):
                raise E.Unsupported("opaque contract: wrong receiver")
            if not isinstance(obj, E.Sym):
                return real[key](obj, reuse_instances, convert_sets, skip_none, **kw)
            models.used("contract of the generated functions of an opaque nested class")
            r = True if reuse_instances is None else reuse_instances
            return enc_contract(E, cls, obj, named, r, bool(convert_sets), skip_none)
        return to

    def de(named):
        key = "from_dict" if named else "from_iter"

        def frm(c=cls, *, data=None, reuse_instances=None, **kw):
            if named and type(data) is dict and set(data) >= {"k"}:
                x = data["k"]
            elif not named and type(data) in (tuple, list) and len(data) == 1:
                x = data[0]
            else:
                x = None
            if type(x) is E.SymObj and x.pycls is KidEnc:
                models.used("contract of the generated functions of an opaque nested class")
                return E.SymObj(E.uf("dec_" + E.sort_name(cls), E.objsort(KidEnc), E.objsort(cls))(x.e), cls)
            if E.deep_symbolic(data):
                return real[key](c, data=data, reuse_instances=reuse_instances, **kw)
            return real[key](c, data=data, reuse_instances=reuse_instances, **kw)
        return frm

    for named, a, b in ((True, "to_dict", "from_dict"), (False, "to_iter", "from_iter")):
        for k, mk in ((a, se), (b, de)):
            if k in funcs:
                funcs[k] = mk(named)
