"""Symbolic core of the VC generator.

A *path* is one deterministic execution of a harness (and of the real code it calls) on symbolic
inputs.  Scalars are proxies over z3 terms; unbounded collections are native Python containers that
hold one *generic element* (`Seg`, or `GKey` for mappings): an arbitrary element of the collection,
universally quantified because nothing is assumed about it but its declared type.  Branching on a
symbolic condition forks the path; obligations are discharged by z3 under the path condition.
"""
from __future__ import annotations
import builtins, datetime, decimal, time, uuid, pathlib, ipaddress
import z3


class Control(BaseException):
    """Engine control flow: never caught by `except Exception` in verified code."""


class Unsupported(Control):
    """The code did something the engine has no model for: the case is undecided, never 'proved'."""


class PathInfeasible(Control):
    pass


class Refuted(Control):
    def __init__(self, label, model_inputs, detail=""):
        self.label, self.inputs, self.detail = label, model_inputs, detail


Fsort = z3.DeclareSort("PyFloat")
STR = z3.StringSort()
INT = z3.IntSort()
_objsorts: dict = {}


def objsort(cls):
    name = f"{cls.__module__}.{cls.__qualname__}"
    if name not in _objsorts:
        _objsorts[name] = z3.DeclareSort("Obj_" + name)
    return _objsorts[name]


def sort_name(cls):
    return f"{cls.__module__}.{cls.__qualname__}"


_ufs: dict = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


class Ctx:
    """State of the current path."""

    cur: "Ctx | None" = None

    def __init__(self, prefix, deadline, solver):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken: list = []      # (choice, n_alternatives, forced)
        self.alts: list = []       # prefixes to explore later
        self.deadline = deadline
        self.solver = solver
        self.n = 0
        self.inputs: list = []
        self.generic: list = []    # stack of generic-iteration contexts
        self.parsed: dict = {}
        self.flits: dict = {}
        self.objlits: dict = {}
        self.checks = 0
        self.solver_s = 0.0
        self.axioms_seen: set = set()
        self.obligations: list = []
        self.broken = None
        self.keep: list = []
        self.notes: dict = {}
        self.nd = 0                # nondeterministic decisions taken so far on this path

    def fresh(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def add(self, e):
        self.solver.add(e)

    def axiom(self, key, e):
        if key not in self.axioms_seen:
            self.axioms_seen.add(key)
            self.solver.add(e)

    def check(self, *extra):
        if time.monotonic() > self.deadline:
            raise Unsupported("time budget of this case exhausted")
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        self.checks += 1
        return r

    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives (a case split of the proof)."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            base = [t for t in self.taken]
            for i in range(n - 1, 0, -1):
                self.alts.append(base + [i])
        self.pos += 1
        self.taken.append(c)
        return c

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            self.last_forced = True
            return True
        if z3.is_false(e):
            self.last_forced = True
            return False
        if len(self.taken) > 400:
            raise Unsupported("path too long")
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(c)
            if c in ("T", "F"):
                self.last_forced = True
                return c == "T"
            self.last_forced = False
            self.nd += 1
            self.add(e if c == 1 else z3.Not(e))
            return c == 1
        rt = self.check(e)
        rf = self.check(z3.Not(e))
        if rt == z3.unknown or rf == z3.unknown:
            raise Unsupported("solver unknown on a branch condition")
        self.pos += 1
        if rt == z3.unsat and rf == z3.unsat:
            raise PathInfeasible()
        if rt == z3.unsat:
            self.taken.append("F")
            self.last_forced = True
            return False
        if rf == z3.unsat:
            self.taken.append("T")
            self.last_forced = True
            return True
        self.alts.append(list(self.taken) + [0])
        self.taken.append(1)
        self.last_forced = False
        self.nd += 1
        self.add(e)
        return True

    def assume(self, e):
        if isinstance(e, SymBool):
            e = e.e
        elif not z3.is_expr(e):
            if not e:
                raise PathInfeasible()
            return
        self.add(e)
        if self.check() == z3.unsat:
            raise PathInfeasible()

    # ---- obligations
    def prove(self, e, label):
        if isinstance(e, SymBool):
            e = e.e
        if not z3.is_expr(e):
            e = z3.BoolVal(bool(e))
        s = z3.simplify(e)
        if z3.is_true(s):
            self.obligations.append((label, "ground" if z3.is_true(e) else "z3-rewriter"))
            return
        r = self.check(z3.Not(e))
        if r == z3.unsat:
            self.obligations.append((label, "z3"))
            return
        if r == z3.unknown:
            raise Unsupported(f"solver unknown on obligation {label}")
        m = self.solver.model()
        raise Refuted(label, concretize_inputs(self, m), str(s)[:400])

    def fail(self, label, detail=""):
        """An obligation whose goal is False on this path."""
        r = self.check()
        if r == z3.unsat:
            self.obligations.append((label, "z3"))
            return
        if r == z3.unknown:
            raise Unsupported(f"solver unknown on path condition at {label}")
        raise Refuted(label, concretize_inputs(self, self.solver.model()), detail)


def ctx() -> Ctx:
    c = Ctx.cur
    if c is None:
        raise RuntimeError("symbolic value used outside a proof")
    return c


# --------------------------------------------------------------------------- scalar proxies
class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e)

    __hash__ = None

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        return bool(self) == o

    def __repr__(self):
        return f"<SymBool {self.e}>"


class SymV(Sym):
    """Symbolic data value: `e` is a z3 term, `pycls` the (statically known) Python class."""

    __slots__ = ("e", "pycls")

    @property
    def __class__(self):
        return self.pycls

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<sym {self.pycls.__name__} {self.e}>"

    def __ne__(self, o):
        r = self.__eq__(o)
        if type(r) is SymBool:
            return SymBool(z3.Not(r.e))
        return not r

    def __getattr__(self, name):
        if name.startswith("_vc"):
            raise AttributeError(name)
        if not hasattr(self.pycls, name):
            raise AttributeError(f"'{self.pycls.__name__}' object has no attribute '{name}'")
        if name in ("__serde__", "__dataclass_fields__"):
            return getattr(self.pycls, name)
        m = METHODS.get((base_kind(self.pycls), name))
        if m is not None:
            return m(self)
        if name in ("__bases__", "__mro__", "__name__", "__qualname__", "__origin__", "__args__", "__parameters__"):
            raise AttributeError(name)          # attributes of classes, never of a value
        raise Unsupported(f"attribute {name} of symbolic {self.pycls.__name__}")

    def __iter__(self):
        if not hasattr(self.pycls, "__iter__"):
            raise TypeError(f"'{self.pycls.__name__}' object is not iterable")
        raise Unsupported(f"iteration over symbolic {self.pycls.__name__}")

    def __len__(self):
        if not hasattr(self.pycls, "__len__"):
            raise TypeError(f"object of type '{self.pycls.__name__}' has no len()")
        raise Unsupported("len of symbolic value")

    def __getitem__(self, i):
        if not hasattr(self.pycls, "__getitem__"):
            raise TypeError(f"'{self.pycls.__name__}' object is not subscriptable")
        if issubclass(self.pycls, (str, bytes)) and not isinstance(i, (int, slice)):
            raise TypeError("string indices must be integers")
        if type(self) is SymStr and type(i) is int and i >= 0:
            if not ctx().fork(z3.Length(self.e) > i):
                raise IndexError("string index out of range")
            return SymStr(z3.SubString(self.e, i, 1))
        if type(self) is SymBytes and type(i) is int and i >= 0:
            n = uf("bytes_len", objsort(bytes), INT)(self.e)
            if not ctx().fork(n > i):
                raise IndexError("index out of range")
            return SymInt(uf("byte_at", objsort(bytes), INT, INT)(self.e, z3.IntVal(i)))
        raise Unsupported("subscript of symbolic value")

    def __contains__(self, x):
        if not hasattr(self.pycls, "__contains__"):
            raise TypeError(f"argument of type '{self.pycls.__name__}' is not iterable")
        if type(self) is SymBytes and isinstance(x, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        raise Unsupported("membership in a symbolic value")

    def __format__(self, spec):
        return f"<sym {self.pycls.__name__}>" if not spec else _uns("format spec on symbolic value")

    def __str__(self):
        return repr(self)

    def __index__(self):
        raise Unsupported("index of symbolic value")

    def __reduce_ex__(self, p):
        raise Unsupported("copy/pickle of symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _uns(m):
    raise Unsupported(m)


METHODS: dict = {}


def base_kind(cls):
    for b in (bool, int, float, str, bytes):
        if issubclass(cls, b):
            return b
    return cls


class SymInt(SymV):
    __slots__ = ()

    def __init__(self, e, pycls=int):
        self.e = e
        self.pycls = pycls

    def _o(self, o):
        t = type(o)
        if t is SymInt:
            return o.e
        if isinstance(o, bool) or (isinstance(o, int) and not isinstance(o, Sym)):
            return z3.IntVal(int(o))
        if t is float:
            if o == int(o) if o == o and abs(o) != float("inf") else False:
                return z3.IntVal(int(o))
            return None
        if t is SymFloat:
            raise Unsupported("int/float comparison")
        return None

    def __eq__(self, o):
        r = self._o(o)
        return False if r is None else SymBool(self.e == r)

    def _cmp(self, o, f):
        r = self._o(o)
        if r is None:
            if isinstance(o, (int, float)):
                raise Unsupported("int compare")
            raise TypeError("'<' not supported")
        return SymBool(f(self.e, r))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f):
        r = self._o(o)
        if r is None or type(o) is float:
            raise Unsupported("int arithmetic")
        return SymInt(f(self.e, r))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __neg__(self): return SymInt(-self.e)
    def __bool__(self): return ctx().fork(self.e != 0)
    __hash__ = SymV.__hash__


class SymStr(SymV):
    __slots__ = ()

    def __init__(self, e, pycls=str):
        self.e = e
        self.pycls = pycls

    def __eq__(self, o):
        if type(o) is SymStr:
            return SymBool(self.e == o.e)
        if isinstance(o, str):
            return SymBool(self.e == z3.StringVal(str.__str__(o)))
        return False

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(z3.Concat(self.e, o.e))
        if isinstance(o, str):
            return SymStr(z3.Concat(self.e, z3.StringVal(o)))
        raise TypeError("can only concatenate str")

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(z3.Concat(z3.StringVal(o), self.e))
        raise TypeError("can only concatenate str")

    def __bool__(self):
        return ctx().fork(self.e != z3.StringVal(""))

    __hash__ = SymV.__hash__


def float_lit(x: float):
    c = ctx()
    key = repr(x)
    if x == 0:
        key = "0.0"
    if x != x:
        raise Unsupported("NaN in a symbolic comparison")
    if key not in c.flits:
        k = z3.Const("flit_" + key, Fsort)
        for o in c.flits.values():
            c.add(k != o)
        c.flits[key] = k
    return c.flits[key]


class SymFloat(SymV):
    """Floats are an uninterpreted sort (values other than NaN; `=` is numeric equality)."""

    __slots__ = ()

    def __init__(self, e, pycls=float):
        self.e = e
        self.pycls = pycls

    def __eq__(self, o):
        if type(o) is SymFloat:
            return SymBool(self.e == o.e)
        if type(o) is SymInt:
            return SymBool(self.e == float_of_int(o.e))
        if isinstance(o, (bool, int)):
            return SymBool(self.e == float_lit(float(o)))
        if isinstance(o, float):
            return SymBool(self.e == float_lit(o))
        return False

    def __bool__(self):
        return ctx().fork(self.e != float_lit(0.0))

    def _cmp(self, name, o):
        if type(o) is SymFloat:
            return SymBool(uf("float_" + name, Fsort, Fsort, z3.BoolSort())(self.e, o.e))
        if isinstance(o, (int, float)) and not isinstance(o, Sym):
            return SymBool(uf("float_" + name, Fsort, Fsort, z3.BoolSort())(self.e, float_lit(float(o))))
        raise Unsupported("float compare")

    def __lt__(self, o): return self._cmp("lt", o)
    def __le__(self, o): return self._cmp("le", o)
    def __gt__(self, o): return self._cmp("gt", o)
    def __ge__(self, o): return self._cmp("ge", o)
    __hash__ = SymV.__hash__


def float_of_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return float_lit(float(e.as_long()))
    return uf("float_of_int", INT, Fsort)(e)


class SymObj(SymV):
    """Value of an opaque class (UUID, Path, datetime, ...), known only up to equality."""

    __slots__ = ()

    def __init__(self, e, pycls):
        self.e = e
        self.pycls = pycls

    def __eq__(self, o):
        if type(o) is SymObj:
            if o.pycls is not self.pycls:
                return False
            return SymBool(self.e == o.e)
        if isinstance(o, Sym):
            if self.pycls is decimal.Decimal:
                raise Unsupported("Decimal compared with another symbolic kind")
            return False
        if type(o) is self.pycls:
            return SymBool(self.e == obj_lit(self.pycls, o))
        if self.pycls in (decimal.Decimal,) and isinstance(o, (int, float)):
            raise Unsupported("Decimal comparison")
        return False

    def __bool__(self):
        if self.pycls in (decimal.Decimal, datetime.timedelta, bytes):
            return ctx().fork(self.e != obj_lit(self.pycls, self.pycls(0)))
        if hasattr(self.pycls, "__bool__") or hasattr(self.pycls, "__len__"):
            raise Unsupported(f"truth value of symbolic {self.pycls.__name__}")
        return True

    __hash__ = SymV.__hash__


def obj_lit(cls, v):
    c = ctx()
    tab = c.objlits.setdefault(cls, {})
    key = repr(v)
    if key not in tab:
        k = z3.Const(f"olit_{sort_name(cls)}_{key}", objsort(cls))
        for o, _ in tab.values():
            c.add(k != o)
        tab[key] = (k, v)
    return tab[key][0]


class SymBytes(SymObj):
    """bytes, up to equality."""
    __slots__ = ()


# ---- conversions with axioms instantiated where the terms are created
def str_of_int(e):
    t = uf("str_of_int", INT, STR)(e)
    ctx().axiom(("soi", e.get_id()), z3.And(
        uf("int_ok", STR, z3.BoolSort())(t), uf("int_of_str", STR, INT)(t) == e, t != z3.StringVal("")))
    ctx().keep.append(e)
    return t


def str_of_float(e):
    t = uf("str_of_float", Fsort, STR)(e)
    ctx().axiom(("sof", e.get_id()), z3.And(
        uf("float_ok", STR, z3.BoolSort())(t), uf("float_of_str", STR, Fsort)(t) == e,
        t != z3.StringVal("")))
    ctx().keep.append(e)
    return t


def str_of_obj(o: SymObj, how="str"):
    s = objsort(o.pycls)
    n = sort_name(o.pycls)
    t = uf(f"{how}_{n}", s, STR)(o.e)
    ctx().axiom((how, n, o.e.get_id()), z3.And(
        uf(f"parse_ok_{how}_{n}", STR, z3.BoolSort())(t),
        uf(f"parse_{how}_{n}", STR, s)(t) == o.e))
    ctx().keep.append(o.e)
    return t


def parse_obj(cls, s: SymStr, how="str", exc=ValueError):
    st = objsort(cls)
    n = sort_name(cls)
    ok = uf(f"parse_ok_{how}_{n}", STR, z3.BoolSort())(s.e)
    if not ctx().fork(ok):
        raise exc(f"Invalid {cls.__name__} string")
    r = uf(f"parse_{how}_{n}", STR, st)(s.e)
    ctx().parsed[s.e.get_id()] = (s.e, ("obj", cls, how, r))
    return SymObj(r, cls)


# --------------------------------------------------------------------------- generic elements
class Base:
    """One unbounded input collection with at least one element. `make()` builds a fresh arbitrary
    element (or entry) of the declared type."""

    def __init__(self, name, make):
        self.name = name
        self.make = make
        c = ctx()
        self.len = SymInt(z3.Int(c.fresh("len_" + name)))
        c.add(self.len.e >= 1)
        self.at = {}
        self.gen = (None, None)
        self.known = {}        # concrete key -> None (absent) or (value,)
        self.counts = []       # (element, number of its occurrences)
        self.nd = 0            # decisions that depend on the generic element
        self.tainted = False   # an element-dependent exception was caught: other elements may differ

    def first(self):
        c = ctx()
        n = c.nd
        x = self.make()
        self.nd += c.nd - n
        return x


class Seg:
    """All elements of `base`, mapped; `elem` is the image of the generic element."""

    __slots__ = ("base", "elem", "fns", "tag")

    def __init__(self, base, elem, fns=(), tag=None):
        self.base, self.elem, self.fns, self.tag = base, elem, fns, tag

    def map(self, fn):
        return Seg(self.base, fn(self.elem), self.fns + (fn,), self.tag)

    def at(self, i):
        if i not in self.base.at:
            self.base.at[i] = self.base.make()
        x = self.base.at[i]
        for f in self.fns:
            x = f(x)
        return x

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of unbounded collections in verified code")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<each of {self.base.name}>"

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"native code reached a generic element ({name})")

    def __bool__(self):
        raise Unsupported("truth value of a generic element marker")

    def __iter__(self):
        raise Unsupported("native iteration reached a generic element marker")

    def __deepcopy__(self, memo):
        raise Unsupported("deepcopy of unbounded collection")


class GKey:
    """Key of the generic entry of an unbounded mapping; `key` is a symbolic or concrete image."""

    __slots__ = ("base", "key", "excludes")

    def __init__(self, base, key, excludes=frozenset()):
        self.base, self.key, self.excludes = base, key, excludes

    __eq__ = lambda self, o: True if self is o else (_uns("GKey compare") if type(o) is GKey else False)
    __hash__ = lambda self: id(self)

    def __repr__(self):
        return f"<each key of {self.base.name}>"

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"native code reached a generic key ({name})")

    def __bool__(self):
        raise Unsupported("truth value of a generic key marker")


def has_marker(x):
    """Does this native container directly hold a generic element?"""
    t = type(x)
    if t in (list, tuple, set, frozenset) or (isinstance(x, (list, tuple, set, frozenset)) and not isinstance(x, Sym)):
        for e in x:
            te = type(e)
            if te is Seg or te is GKey:
                return True
        return False
    if isinstance(x, dict):
        for e in x:
            if type(e) is GKey:
                return True
        return False
    import collections
    if t is collections.deque:
        return any(type(e) is Seg for e in x)
    if t in (_dk, _dv, _di):
        for e in x:
            te = type(e)
            if te is GKey or te is Seg or (te is tuple and e and type(e[0]) is GKey):
                return True
        # values views of a generic dict
        return False
    return False


_dk, _dv, _di = type({}.keys()), type({}.values()), type({}.items())


def is_sym(x):
    return isinstance(x, Sym) if not isinstance(x, type) else False


def symbolic(x):
    """Sym scalar, marker, or native container directly holding markers/proxies."""
    t = type(x)
    if t in _CONC:
        return False
    if issubclass(t, Sym) or t is Seg or t is GKey:
        return True
    if t in (list, tuple, set, frozenset, _deque) or t is dict:
        return deep_symbolic(x)
    if isinstance(x, (list, tuple, set, frozenset, dict)):
        return deep_symbolic(x)
    if t in (_dk, _dv, _di):
        return any(deep_symbolic(e) for e in x)
    return False


import collections as _c
_deque = _c.deque
_CONC = {int, str, float, bool, type(None), bytes, type, builtins.type(len)}


def deep_symbolic(x, depth=0):
    t = type(x)
    if t in _CONC:
        return False
    if issubclass(t, Sym) or t is Seg or t is GKey:
        return True
    if depth > 30:
        return False
    if isinstance(x, dict):
        return any(deep_symbolic(k, depth + 1) or deep_symbolic(v, depth + 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset, _deque)):
        return any(deep_symbolic(e, depth + 1) for e in x)
    if t in (_dk, _dv, _di):
        return any(deep_symbolic(e, depth + 1) for e in x)
    d = getattr(t, "__dataclass_fields__", None)
    if d is not None and not isinstance(x, type):
        try:
            return any(deep_symbolic(v, depth + 1) for v in vars(x).values())
        except TypeError:
            return any(deep_symbolic(getattr(x, f, None), depth + 1) for f in d)
    return False


# --------------------------------------------------------------------------- concretization
REP_POOL = {
    uuid.UUID: [uuid.UUID(int=i + 1) for i in range(8)],
    pathlib.PosixPath: [pathlib.PosixPath(f"/p{i}/q") for i in range(8)],
    pathlib.PurePosixPath: [pathlib.PurePosixPath(f"/p{i}/q") for i in range(8)],
    pathlib.PureWindowsPath: [pathlib.PureWindowsPath(f"c:\\p{i}") for i in range(8)],
    decimal.Decimal: [decimal.Decimal(f"{i}.25") for i in range(1, 9)],
    datetime.datetime: [datetime.datetime(2020, 1, 1 + i, 3, 4, 5) for i in range(8)],
    datetime.date: [datetime.date(2020, 1, 1 + i) for i in range(8)],
    datetime.time: [datetime.time(1 + i, 2, 3) for i in range(8)],
    ipaddress.IPv4Address: [ipaddress.IPv4Address(i + 1) for i in range(8)],
    ipaddress.IPv6Address: [ipaddress.IPv6Address(i + 1) for i in range(8)],
    ipaddress.IPv4Network: [ipaddress.IPv4Network((i << 24, 8)) for i in range(1, 9)],
    ipaddress.IPv6Network: [ipaddress.IPv6Network((i << 64, 64)) for i in range(1, 9)],
    ipaddress.IPv4Interface: [ipaddress.IPv4Interface(f"10.0.{i}.1/24") for i in range(8)],
    ipaddress.IPv6Interface: [ipaddress.IPv6Interface(f"fe80::{i+1}/64") for i in range(8)],
    bytes: [b"b%d" % i for i in range(8)],
}
FLOAT_POOL = [1.5, 2.25, -0.75, 1e10, 3.125, 0.001, 7.5, -12.5]


class Conc:
    """Turns symbolic values into concrete ones, from a z3 model (or, with none, by type)."""

    def __init__(self, c, model):
        self.c, self.m = c, model
        self.fmap, self.omap, self.used_f, self.used_o = {}, {}, 0, {}
        self.memo = {}
        if model is not None:
            for k, e in c.flits.items():
                self.fmap[str(self.ev(e))] = float(k)
            for cls, tab in c.objlits.items():
                for e, v in tab.values():
                    self.omap[(cls, str(self.ev(e)))] = v

    def ev(self, e):
        return self.m.eval(e, model_completion=True)

    def scalar(self, x):
        t = type(x)
        cls = x.pycls
        if t is SymInt:
            v = 7 if self.m is None else self.ev(x.e).as_long()
            return v if cls is int else cls(v)
        if t is SymStr:
            v = "s" if self.m is None else self.string(x.e)
            return v if cls is str else cls(v)
        if t is SymFloat:
            v = 1.5 if self.m is None else self.flt(x.e)
            return v if cls is float else cls(v)
        if t is SymObj or t is SymBytes:
            pool = REP_POOL.get(cls)
            if pool is None:
                raise Unsupported(f"no representative of {cls}")
            if self.m is None:
                return pool[0]
            return self.obj(x.e, cls)
        raise Unsupported(f"concretize {t}")

    def flt(self, e):
        k = str(self.ev(e))
        if k not in self.fmap:
            # a float that is the image of an int
            self.fmap[k] = FLOAT_POOL[self.used_f % len(FLOAT_POOL)]
            self.used_f += 1
        return self.fmap[k]

    def obj(self, e, cls):
        k = (cls, str(self.ev(e)))
        if k not in self.omap:
            i = self.used_o.get(cls, 0)
            self.used_o[cls] = i + 1
            self.omap[k] = REP_POOL[cls][i % 8]
        return self.omap[k]

    def string(self, e):
        p = self.c.parsed.get(e.get_id())
        if p is not None:
            kind = p[1]
            if kind[0] == "int":
                return str(self.ev(kind[1]).as_long())
            if kind[0] == "float":
                return str(self.flt(kind[1]))
            if kind[0] == "obj":
                v = self.obj(kind[3], kind[1])
                return v.isoformat() if kind[2] == "iso" else str(v)
        d = z3.simplify(e)
        if z3.is_app(d) and d.decl().name() == "str_of_int":
            return str(self.ev(d.arg(0)).as_long())
        if z3.is_app(d) and d.decl().name() == "str_of_float":
            return str(self.flt(d.arg(0)))
        v = self.ev(e)
        try:
            return v.as_string() if z3.is_string_value(v) else "s"
        except Exception:
            return "s"

    def conc(self, x):
        t = type(x)
        if issubclass(t, SymV):
            return self.scalar(x)
        if t is SymBool:
            return True if self.m is None else z3.is_true(self.ev(x.e))
        if t in _CONC or isinstance(x, type):
            return x
        if id(x) in self.memo:
            return self.memo[id(x)][1]
        r = self._conc(x, t)
        self.memo[id(x)] = (x, r)
        return r

    def _conc(self, x, t):
        if t is Seg:
            return self.conc(x.elem)
        if t is GKey:
            return self.conc(x.key)
        if isinstance(x, dict):
            items = {}
            for k, v in x.items():
                items[_h(self.conc(k))] = self.conc(v)
            if t is dict:
                return items
            if t is _c.defaultdict:
                return _c.defaultdict(x.default_factory, items)
            if t is _c.Counter:
                return _c.Counter(items)
            if t is _c.OrderedDict:
                return _c.OrderedDict(items)
            raise Unsupported(f"concretize {t}")
        if t in (list, set, frozenset, _deque):
            return t(self.conc(e) for e in x)
        if t is tuple:
            return tuple(self.conc(e) for e in x)
        if hasattr(t, "__dataclass_fields__"):
            if not deep_symbolic(x):
                return x
            o = object.__new__(t)
            try:
                for k, v in vars(x).items():
                    object.__setattr__(o, k, self.conc(v))
            except TypeError:
                for k in t.__dataclass_fields__:
                    if hasattr(x, k):
                        object.__setattr__(o, k, self.conc(getattr(x, k)))
            return o
        c = getattr(t, "_vc_conc", None)
        if c is not None:
            return c(x, self.conc)
        return x


def _h(k):
    try:
        hash(k)
        return k
    except TypeError:
        raise Unsupported("unhashable key in concretization")


def concretize_inputs(c, model):
    k = Conc(c, model)
    try:
        return [k.conc(i) for i in c.inputs]
    except Unsupported:
        return None


def representative(x):
    """A concrete value with the same dynamic classes as x (for trusted class-directed checks)."""
    return Conc(ctx(), None).conc(x)


# --------------------------------------------------------------------------- path enumeration
class Result:
    def __init__(self):
        self.status = "proved"       # proved | refuted | undecided
        self.paths = 0
        self.obls: dict = {}
        self.z3 = 0
        self.rewr = 0
        self.ground = 0
        self.checks = 0
        self.solver_s = 0.0
        self.reason = ""
        self.label = ""
        self.inputs = None
        self.detail = ""
        self.covers: dict = {}


def prove_all(fn, budget_s=20.0, max_paths=3000, z3_timeout_ms=4000):
    """Run fn() on every feasible path. fn uses Ctx.cur and returns normally, or raises Refuted."""
    res = Result()
    work = [[]]
    deadline = time.monotonic() + budget_s
    while work:
        prefix = work.pop()
        solver = z3.Solver()
        solver.set("timeout", z3_timeout_ms)
        solver.set("random_seed", 1)
        c = Ctx(prefix, deadline, solver)
        Ctx.cur = c
        try:
            try:
                fn()
                if c.broken:
                    raise Unsupported(c.broken)
            except PathInfeasible:
                pass
            except Refuted as r:
                res.status, res.label, res.inputs, res.detail = "refuted", r.label, r.inputs, r.detail
            except Unsupported as u:
                res.status, res.reason = "undecided", str(u)
            except RecursionError:
                res.status, res.reason = "undecided", "recursion limit"
        finally:
            Ctx.cur = None
        res.paths += 1
        res.checks += c.checks
        res.solver_s += c.solver_s
        for label, how in c.obligations:
            res.obls[label] = res.obls.get(label, 0) + 1
            if how == "z3":
                res.z3 += 1
            elif how == "z3-rewriter":
                res.rewr += 1
            else:
                res.ground += 1
        for k in c.notes:
            res.covers[k] = res.covers.get(k, 0) + 1
        if res.status != "proved":
            return res
        work.extend(reversed(c.alts))
        if work and (res.paths >= max_paths or time.monotonic() > deadline):
            res.status, res.reason = "undecided", "path or time budget exhausted"
            return res
    return res
