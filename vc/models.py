"""Runtime of the instrumented code: loop/comprehension rules and the contracts of the functions
outside the verified source (builtins, standard library constructors, beartype, plum)."""
from __future__ import annotations
import builtins, collections, copy, dataclasses, datetime, decimal, enum, functools, ipaddress
import logging, operator, pathlib, sys, types, typing, uuid
import z3
from . import engine as E
from .engine import (Ctx, GKey, Seg, Sym, SymBool, SymBytes, SymFloat, SymInt, SymObj, SymStr, SymV,
                     Unsupported, ctx, has_marker, symbolic, deep_symbolic)

_MARK = (Seg, GKey)
TRUSTED_USED: dict = {}


def used(name):
    TRUSTED_USED[name] = TRUSTED_USED.get(name, 0) + 1


# --------------------------------------------------------------------------- str / int / float ...
def m_str(x):
    t = type(x)
    if t is SymStr:
        return SymStr(x.e)
    if t is SymInt:
        if x.pycls is not int and x.pycls.__str__ is not int.__str__:
            raise Unsupported("str of int subclass")
        return SymStr(E.str_of_int(x.e))
    if t is SymFloat:
        return SymStr(E.str_of_float(x.e))
    if t is SymObj or t is SymBytes:
        used(f"{x.pycls.__name__}(str(x)) == x")
        return SymStr(E.str_of_obj(x))
    if t is SymBool:
        return str(bool(x))
    if isinstance(x, BaseException):
        return "<exception text>"
    return "<text of " + type(x).__name__ + ">"


def _of_bytes(x, kind, sort, sym, cls):
    """int(b"12"), float(b"1.5"): some number, or ValueError."""
    if not ctx().fork(E.uf(kind + "_ok_bytes", E.objsort(bytes), z3.BoolSort())(x.e)):
        raise ValueError(f"invalid bytes for {kind}()")
    return sym(E.uf(kind + "_of_bytes", E.objsort(bytes), sort)(x.e), cls)


def m_int(cls, x):
    t = type(x)
    if t is SymInt:
        return SymInt(x.e, cls)
    if t is SymStr:
        ok = E.uf("int_ok", E.STR, z3.BoolSort())(x.e)
        used("int(str(i)) == i")
        if not ctx().fork(ok):
            raise ValueError("invalid literal for int() with base 10")
        r = E.uf("int_of_str", E.STR, E.INT)(x.e)
        ctx().parsed[x.e.get_id()] = (x.e, ("int", r))
        ctx().keep.append(x.e)
        return SymInt(r, cls)
    if t is SymFloat:
        ok = E.uf("float_finite", E.Fsort, z3.BoolSort())(x.e)
        if not ctx().fork(ok):
            raise OverflowError("cannot convert float infinity to integer")
        return SymInt(E.uf("int_of_float", E.Fsort, E.INT)(x.e), cls)
    if t in (SymObj, SymBytes):
        if t is SymBytes:
            return _of_bytes(x, "int", E.INT, SymInt, cls)
        if hasattr(x.pycls, "__int__"):
            return SymInt(E.uf("int_of_" + E.sort_name(x.pycls), E.objsort(x.pycls), E.INT)(x.e), cls)
        raise TypeError("int() argument must be a string, a bytes-like object or a real number")
    raise Unsupported("int()")


def m_float(cls, x):
    t = type(x)
    if t is SymFloat:
        return SymFloat(x.e, cls)
    if t is SymInt:
        return SymFloat(E.float_of_int(x.e), cls)
    if t is SymStr:
        ok = E.uf("float_ok", E.STR, z3.BoolSort())(x.e)
        used("float(str(f)) == f")
        if not ctx().fork(ok):
            raise ValueError("could not convert string to float")
        r = E.uf("float_of_str", E.STR, E.Fsort)(x.e)
        ctx().parsed[x.e.get_id()] = (x.e, ("float", r))
        ctx().keep.append(x.e)
        return SymFloat(r, cls)
    if t is SymBytes:
        return _of_bytes(x, "float", E.Fsort, SymFloat, cls)
    if t is SymObj:
        if hasattr(x.pycls, "__float__") or hasattr(x.pycls, "__index__"):
            return SymFloat(E.uf("float_of_" + E.sort_name(x.pycls), E.objsort(x.pycls), E.Fsort)(x.e), cls)
        raise TypeError("float() argument must be a string or a real number")
    raise Unsupported("float()")


STR_PARSE = (uuid.UUID, decimal.Decimal, ipaddress.IPv4Address, ipaddress.IPv6Address,
             ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Interface,
             ipaddress.IPv6Interface)


def m_parse(cls, x):
    """cls(x) for a class whose instances are str-serializable."""
    t = type(x)
    if issubclass(cls, pathlib.PurePath):
        rcls = pathlib.PosixPath if cls is pathlib.Path else cls
        if t is SymStr:
            used(f"{cls.__name__}(str(x)) == x")
            st = E.objsort(rcls)
            n = E.sort_name(rcls)
            r = E.uf(f"parse_str_{n}", E.STR, st)(x.e)
            return SymObj(r, rcls)
        if t is SymObj and issubclass(x.pycls, pathlib.PurePath):
            return SymObj(x.e, rcls)
        raise TypeError("expected str, bytes or os.PathLike object")
    if t is SymStr:
        used(f"{cls.__name__}(str(x)) == x")
        exc = decimal.InvalidOperation if cls is decimal.Decimal else ValueError
        return E.parse_obj(cls, x, exc=exc)
    if t is SymObj and x.pycls is cls:
        if cls is uuid.UUID:
            raise AttributeError("'UUID' object has no attribute 'replace'")
        return SymObj(x.e, cls)
    if t is SymInt and cls is not uuid.UUID:
        if cls is decimal.Decimal:
            return SymObj(E.uf("Decimal_of_int", E.INT, E.objsort(cls))(x.e), cls)
        return _address(cls, x, "int", E.INT)
    if cls is uuid.UUID:
        raise AttributeError(f"'{x.pycls.__name__}' object has no attribute 'replace'")
    if cls is decimal.Decimal:
        if t is SymFloat:
            return SymObj(E.uf("Decimal_of_float", E.Fsort, E.objsort(cls))(x.e), cls)
        raise TypeError("conversion to Decimal is not supported")
    if t is SymBytes:
        return _address(cls, x, "bytes", E.objsort(bytes))
    raise ValueError("does not appear to be an address")


def _maybe_obj(cls, x):
    """A constructor that accepts some containers: any instance, or ValueError."""
    if not isinstance(x, (tuple, list)):
        raise ValueError(f"not a {cls.__name__}")
    c = ctx()
    c.keep.append(x)
    memo = c.__dict__.setdefault("maybe_obj", {})
    k = (cls, id(x))
    if k not in memo:
        memo[k] = SymObj(z3.Const(c.fresh("o"), E.objsort(cls)), cls) if c.choose(2) else None
    if memo[k] is None:
        raise ValueError(f"not a {cls.__name__}")
    return memo[k]


def _address(cls, x, kind, sort):
    n = E.sort_name(cls)
    if not ctx().fork(E.uf(f"{n}_{kind}_ok", sort, z3.BoolSort())(x.e)):
        raise ValueError("does not appear to be an address")
    return SymObj(E.uf(f"{n}_of_{kind}", sort, E.objsort(cls))(x.e), cls)


def m_iso(cls):
    def fromisoformat(x):
        if type(x) is SymStr:
            used(f"{cls.__name__}.fromisoformat(x.isoformat()) == x")
            return E.parse_obj(cls, x, how="iso")
        raise TypeError("fromisoformat: argument must be str")
    return fromisoformat


for _c in (datetime.datetime, datetime.date, datetime.time):
    def _mk(c):
        def bind(x):
            def isoformat():
                used(f"{c.__name__}.fromisoformat(x.isoformat()) == x")
                return SymStr(E.str_of_obj(x, "iso"))
            isoformat._vc_ok = True
            return isoformat
        return bind
    E.METHODS[(_c, "isoformat")] = _mk(_c)


# --------------------------------------------------------------------------- runtime functions
class Sentinel:
    pass


def vc_fstr(*parts):
    out = None
    for p in parts:
        if type(p) is tuple:
            v, conv = p
            if symbolic(v):
                if conv in (-1, 115) and isinstance(v, SymV):
                    v = m_str(v)
                else:
                    v = "<" + type(v).__name__ + ">"
            elif conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            else:
                v = format(v)
        else:
            v = p
        out = v if out is None else out + v
    return "" if out is None else out


def _cmp_key(k, key):
    """Symbolic/concrete equality of two keys as a Python bool (forks)."""
    return bool(k == key)


def vc_in(a, b):
    ta = type(a)
    if ta is GKey:
        raise Unsupported("generic key leaked")
    if issubclass(type(b), Sym):
        if type(b) is SymStr and (ta is SymStr or isinstance(a, str)):
            ae = a.e if ta is SymStr else z3.StringVal(a)
            return SymBool(z3.Contains(b.e, ae))
        return a in b
    if issubclass(ta, Sym):
        if isinstance(b, (dict, set, frozenset, list, tuple, collections.deque)) or type(b) in (E._dk,):
            es = []
            for k in list(b):
                if type(k) is GKey:
                    if k.key is a or (isinstance(k.key, SymV) and k.key.e.eq(a.e)):
                        return True
                    raise Unsupported("membership of a symbolic key in an unbounded mapping")
                if type(k) is Seg:
                    raise Unsupported("membership of a symbolic value in an unbounded collection")
                r = (k == a) if isinstance(k, Sym) else (a == k)
                if r is NotImplemented:
                    r = False
                if type(r) is SymBool:
                    es.append(r.e)
                elif r:
                    return True
            if not es:
                return False
            return SymBool(z3.Or(*es))
        if isinstance(b, str):
            if ta is not SymStr:
                raise TypeError("'in <string>' requires string as left operand")
            raise Unsupported("substring test")
        if type(b) is type and issubclass(b, enum.Enum):
            raise Unsupported("in Enum")
        raise Unsupported(f"symbolic value in {type(b).__name__}")
    # concrete a
    if has_marker(b):
        if isinstance(b, dict) or type(b) in (E._dk, set, frozenset):
            if a in b:
                return True
            if isinstance(b, (set, frozenset)):
                for k in b:
                    if type(k) is GKey:
                        _excluded(k, a)
                    elif type(k) is Seg:
                        raise Unsupported("membership in an unbounded set")
                return False
            return _lookup(b, a)[0]
        return _member(a, b)
    if isinstance(b, dict) and any(isinstance(k, Sym) for k in ()):
        pass
    return a in b


def _member(a, b):
    """A concrete value in an unbounded sequence: either way, where some element could be equal."""
    c = ctx()
    memo = c.__dict__.setdefault("member", {})
    for e in b:
        if type(e) is Seg:
            if isinstance(e.elem, (SymInt, SymFloat)) and isinstance(a, str):
                continue
            if isinstance(a, str) and e.base.nd == 0 and not isinstance(e.elem, (str, SymStr)):
                continue
            k = (id(e.base), a)
            c.keep.append(e.base)
            if k not in memo:
                memo[k] = c.choose(2) == 1
            if memo[k]:
                return True
        else:
            r = (e == a)
            if r is not NotImplemented and r:
                return True
    return False


def _excluded(gk, a):
    """Is the concrete key `a` known to differ from every generic key of this mapping?"""
    if a in gk.excludes:
        return True
    if isinstance(a, str) and isinstance(gk.key, (SymInt, SymFloat)):
        return True
    if isinstance(gk.key, SymStr) and not isinstance(a, str):
        return True
    raise Unsupported(f"lookup of key {a!r} in an unbounded mapping")


def _lookup(d, a):
    """A concrete key `a`, not among the concrete keys of the mapping (or keys view) d: (present, value)."""
    m = d.mapping if type(d) is E._dk else d
    for gk in list(m):
        if type(gk) is not GKey:
            continue
        b = gk.base
        v = dict.__getitem__(m, gk) if isinstance(m, dict) else m[gk]
        if (isinstance(a, str) and isinstance(gk.key, (SymStr, str)) and a not in gk.excludes and b.gen[0] is gk.key
                and b.gen[1] is v):
            if a not in b.known:
                e = None
                c = ctx()
                if c.choose(2):
                    k, w = b.make()
                    r = (k == a)
                    c.assume(r.e if type(r) is SymBool else z3.BoolVal(bool(r is True)))
                    e = (w,)
                b.known[a] = e
            if b.known[a] is not None:
                return True, b.known[a][0]
            continue
        _excluded(gk, a)
    return False, None


def vc_getitem(x, i):
    tx = type(x)
    if tx is dict or isinstance(x, dict):
        ti = type(i)
        if issubclass(ti, Sym):
            for k, v in x.items():
                if type(k) is GKey:
                    if k.key is i or (isinstance(k.key, SymV) and k.key.e.eq(i.e)):
                        return v
                    raise Unsupported("symbolic lookup in an unbounded mapping")
                if vc_in(i, [k]):
                    return v
            raise KeyError("symbolic key")
        if ti is GKey:
            raise Unsupported("generic key leaked")
        if has_marker(x) and i not in x:
            present, v = _lookup(x, i)
            if present:
                return v
            if isinstance(x, collections.defaultdict):
                raise Unsupported("defaultdict lookup")
        return x[i]
    if tx in (list, tuple) and type(i) is slice and i == slice(None):
        return x[:]
    if tx in (list, tuple, collections.deque) and has_marker(x):
        if type(i) is int:
            if 0 <= i:
                for j, e in enumerate(x):
                    if type(e) is Seg:
                        if j == i == 0:
                            return e.at(0)
                        if j == 0 and len(x) == 1 and not e.tag:
                            if not ctx().fork(e.base.len.e > i):
                                raise IndexError("index out of range")
                            return e.at(i)
                        raise Unsupported("indexing into an unbounded sequence")
                    if j == i:
                        return e
        if tx is not collections.deque and not isinstance(i, (int, slice)) and not issubclass(type(i), Sym):
            raise TypeError("indices must be integers or slices")
        raise Unsupported("indexing/slicing an unbounded sequence")
    if issubclass(type(i), Sym) and not isinstance(x, type):
        if tx in (list, tuple, str):
            raise Unsupported("symbolic index")
    return x[i]


def vc_setitem(v, x, i):
    ti = type(i)
    if issubclass(ti, Sym):
        if isinstance(x, dict):
            g = ctx().generic
            o = _outer_old(x)
            if o is not None and o is g[-1] and not o.nested:
                o.writes += 1
                x[GKey(o.base, need_hash(i), o.excludes)] = v
                return
        raise Unsupported("store under a symbolic key")
    if ti is GKey:
        raise Unsupported("generic key leaked")
    c = Ctx.cur
    if c is not None and c.generic and _outer_old(x) is not None:
        raise Unsupported("concrete-key store inside an unbounded loop")
    x[i] = v


def vc_dict(pairs):
    d = {}
    for k, v in pairs:
        if issubclass(type(k), Sym):
            raise Unsupported("dict display with a symbolic key")
        d[k] = v
    return d


def vc_binop(op, a, b):
    if isinstance(a, (set, frozenset, E._dk)) and (has_marker(a) or (isinstance(b, (set, frozenset)) and has_marker(b))):
        if op == "-" and not has_marker(b):
            r = set()
            for e in a:
                if type(e) is GKey:
                    for k in b:
                        _excluded(e, k)
                    r.add(e)
                elif type(e) is Seg:
                    raise Unsupported("difference of unbounded sets")
                elif e not in b:
                    r.add(e)
            return r
        raise Unsupported(f"set {op} on unbounded sets")
    if op == "-":
        return a - b
    if op == "|":
        if isinstance(a, dict) and isinstance(b, dict) and (has_marker(a) or has_marker(b)):
            return _merge(dict(a), b)
        return a | b
    return a & b


def _merge(a, b):
    for k, v in b.items():
        if type(k) is not GKey:
            for g in a:
                if type(g) is GKey:
                    _excluded(g, k)
        else:
            for q in a:
                if type(q) is GKey and q.base is not k.base:
                    raise Unsupported("merge of two unbounded mappings")
                if type(q) is not GKey:
                    _excluded(k, q)
        a[k] = v
    return a


def _items(it):
    """The native elements of an iterable, as a list."""
    return list(it)


def _is_iterable_sym(it):
    t = type(it)
    if t in (E._di, E._dk, E._dv):
        return True
    return False


def chars(x):
    """The characters of a symbolic str / the bytes of a symbolic bytes, as an unbounded collection."""
    t = type(x)
    if t is not SymStr and t is not SymBytes:
        return iter(x)          # TypeError or Unsupported
    c = ctx()
    memo = c.__dict__.setdefault("chars", {})
    k = (t, x.e.get_id())
    if k not in memo:
        c.keep.append(x.e)
        if t is SymStr:
            n = z3.Length(x.e)
            empty = c.fork(n == 0)
        else:
            n = None
            empty = c.choose(2) == 0

        def make():
            if t is SymBytes:
                i = z3.Int(c.fresh("byte"))
                c.add(z3.And(i >= 0, i < 256))
                return SymInt(i)
            e = z3.String(c.fresh("ch"))
            c.add(z3.Length(e) == 1)
            return SymStr(e)
        if empty:
            memo[k] = []
        else:
            b = E.Base(c.fresh("chars"), make)
            if n is not None:
                c.add(b.len.e == n)
            memo[k] = [Seg(b, b.first())]
    return list(memo[k])


def _values(it):
    """The values of a mapping, with the generic entry's value as generic element."""
    if type(it) is E._dv and any(type(k) is GKey for k in it.mapping):
        return [Seg(k.base, v, (Sentinel,), "entry") if type(k) is GKey else v for k, v in it.mapping.items()]
    return it


def _flat(it):
    """The elements of a collection as (base or None, element)."""
    it = it.rest() if type(it) is VIter else _values(it)
    out = []
    for e in it:
        if type(e) is Seg:
            out.append((e.base, e.elem))
        elif type(e) is GKey:
            out.append((e.base, e.key))
        elif type(e) is tuple and len(e) == 2 and type(e[0]) is GKey:
            out.append((e[0].base, (e[0].key, e[1])))
        else:
            out.append((None, e))
    return out


def m_zip(args):
    ls = [_flat(a) for a in args]
    if len({len(x) for x in ls}) != 1 or any(len({id(b) for b, _ in col}) != 1 for col in zip(*ls)):
        raise Unsupported("zip over unbounded collections of different lengths")
    out = []
    for col in zip(*ls):
        t = tuple(e for _, e in col)
        out.append(t if col[0][0] is None else Seg(col[0][0], t, (Sentinel,), "entry"))
    return VIter(out)


def vc_comp(kind, it, cond, body, star):
    if issubclass(type(it), Sym):
        it = chars(it)
    it = _values(it)
    if type(it) in (Seg, GKey):
        raise Unsupported("iteration over a marker")
    if type(it) is VIter:
        it = it.rest()
    if Ctx.cur is None or not _marked(it):
        # no generic element: native semantics
        f = (lambda e: body(*e)) if star else body
        if cond is None:
            g = (f(e) for e in it)
        else:
            cnd = (lambda e: cond(*e)) if star else cond
            g = (f(e) for e in it if cnd(e))
        if kind == "gen":
            return g
        if kind == "list":
            return list(g)
        if kind == "set":
            r = set()
            for e in g:
                r.add(e)
            return r
        d = {}
        for k, v in g:
            if issubclass(type(k), Sym):
                if Ctx.cur is not None and any(type(q) is not type(k) for q in d):
                    pass
                raise Unsupported("symbolic key from a concrete iteration")
            d[k] = v
        return d
    out = []
    for e in it:
        te = type(e)
        if te is Seg:
            f = (lambda x: body(*_unpack(x))) if star else body
            cnd = None if cond is None else ((lambda x: cond(*_unpack(x))) if star else cond)
            r = _generic(e.base, frozenset(), lambda: _filtered(cnd, e.elem))
            if r:
                m = _generic(e.base, frozenset(), lambda: e.map(f))
                if kind == "dict":
                    k, v = m.elem
                    out.append((GKey(e.base, need_hash(k)), v))
                else:
                    out.append(m)
        elif te is GKey or (te is tuple and len(e) == 2 and type(e[0]) is GKey):
            gk = e if te is GKey else e[0]
            args = (gk.key,) if te is GKey else (gk.key, e[1])
            call = (lambda fn: fn(*args)) if (star or te is GKey) else (lambda fn: fn(args))
            r = _generic(gk.base, gk.excludes, lambda: _filtered(None if cond is None else (lambda _: call(cond)), None))
            if r:
                m = _generic(gk.base, gk.excludes, lambda: call(body))
                if kind == "dict":
                    k, v = m
                    out.append((_gkey(gk, k), v))
                elif kind in ("set",) and te is GKey:
                    out.append(_gkey(gk, m))
                else:
                    out.append(Seg(gk.base, m, (Sentinel,), "entry"))
        else:
            if cond is not None and not (cond(*e) if star else cond(e)):
                continue
            out.append(body(*e) if star else body(e))
    if kind in ("list", "gen"):
        return VIter(out) if kind == "gen" else out
    if kind == "set":
        for e in out:
            need_hash(e.elem if type(e) is Seg else e)
        return set(out)
    d = {}
    for k, v in out:
        if type(k) is not GKey and issubclass(type(k), Sym):
            raise Unsupported("symbolic key")
        d[k] = v
    return d


def need_hash(x):
    """TypeError if a value of this shape cannot be a dict key or set element."""
    t = type(x)
    if issubclass(t, Sym):
        c = x.pycls if isinstance(x, SymV) else bool
        if c.__hash__ is None or getattr(c, "_vc_unhashable", False):
            raise TypeError(f"unhashable type: '{c.__name__}'")
    elif t is tuple:
        for e in x:
            need_hash(e.elem if type(e) is Seg else e)
    elif t.__hash__ is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    elif hasattr(t, "__dataclass_fields__") and t.__hash__ is not object.__hash__:
        for e in getattr(x, "__dict__", {}).values():
            need_hash(e)
    return x


def _gkey(gk, k):
    need_hash(k)
    same = k is gk.key or (isinstance(k, SymV) and isinstance(gk.key, SymV) and k.e.eq(gk.key.e))
    return GKey(gk.base, k, gk.excludes if same else frozenset())


def _unpack(x):
    if isinstance(x, (tuple, list)):
        return x
    raise Unsupported("unpacking a generic element")


def _filtered(cnd, elem):
    if cnd is None:
        return True
    r = cnd(elem)
    if type(r) is SymBool:
        b = bool(r)
        if not ctx().last_forced:
            raise Unsupported("filter of an unbounded collection is not uniform")
        return b
    return r


class GenericCtx:
    """One iteration of an unbounded loop. `old` holds the identities of the mutable containers that
    existed before the iteration: writing to them is a loop effect, writing to others is not."""

    def __init__(self, base, excludes, frame, nested):
        self.base, self.excludes, self.nested = base, excludes, nested
        self.writes = 0
        self.old = set()
        self.hold = []
        for v in list(frame.f_locals.values()):
            self._scan(v, 0)

    def _scan(self, v, depth):
        t = type(v)
        if t in E._CONC or depth > 8 or id(v) in self.old:
            return
        if isinstance(v, dict):
            self.old.add(id(v))
            self.hold.append(v)
            for x in v.values():
                self._scan(x, depth + 1)
        elif isinstance(v, (list, set, collections.deque, tuple, frozenset)):
            self.old.add(id(v))
            self.hold.append(v)
            for x in v:
                self._scan(x.elem if type(x) is Seg else x, depth + 1)
        elif hasattr(t, "__dataclass_fields__"):
            self.old.add(id(v))
            self.hold.append(v)
            for x in getattr(v, "__dict__", {}).values():
                self._scan(x, depth + 1)

    def is_fresh(self, x):
        return id(x) not in self.old


def _outer_old(x):
    """The innermost unbounded loop for which x is pre-existing state, if any."""
    for g in reversed(ctx().generic):
        if not g.is_fresh(x):
            return g
    return None


def _generic(base, excludes, fn):
    c = ctx()
    f = sys._getframe(2)
    g = GenericCtx(base, excludes, f, True)
    # Comprehension bodies cannot rebind outer state except through calls; stores into containers
    # that pre-exist the body are rejected by vc_setitem/vc_call.
    c.generic.append(g)
    n = c.nd
    try:
        return fn()
    except Exception:
        if base.nd or c.nd != n:
            base.tainted = True
        raise
    finally:
        base.nd += c.nd - n
        c.generic.pop()


def _marked(it):
    t = type(it)
    if t is VIter:
        return True
    if t in (E._dv,):
        # a values view: find out from its owner
        return any(type(k) is GKey for k in it.mapping)
    return has_marker(it)


def first_entry(g):
    """The first entry of an unbounded mapping: as arbitrary as, but independent of, the generic one."""
    b = g.base
    if b.gen[0] is not g.key:
        raise Unsupported("next() on a converted unbounded mapping")
    if 0 not in b.at:
        b.at[0] = b.make()
    return b.at[0]


class VIter:
    """An iterator over a container that may hold generic elements."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0
        self.part = False

    def rest(self):
        if self.part:
            raise Unsupported("the rest of an unbounded collection")
        r = self.items[self.pos:]
        self.pos = len(self.items)
        return r

    def next(self):
        if self.pos >= len(self.items):
            raise StopIteration
        e = self.items[self.pos]
        if type(e) in _MARK or type(e) is tuple and len(e) == 2 and type(e[0]) is GKey:
            if self.part:
                raise Unsupported("second element of an unbounded collection")
            self.part = True
        if type(e) is Seg:
            return e.at(0)
        if type(e) is GKey:
            return first_entry(e)[0]
        if type(e) is tuple and len(e) == 2 and type(e[0]) is GKey:
            k, v = first_entry(e[0])
            if e[1] is not e[0].base.gen[1]:
                raise Unsupported("next() on a converted unbounded mapping")
            return (k, v)
        self.pos += 1
        return e

    def __iter__(self):
        if any(type(e) in _MARK for e in self.items[self.pos:]):
            raise Unsupported("native iteration over an unbounded collection")
        return iter(self.rest())


def vc_star(it):
    """*it in a display or call; elements of an unbounded collection stay generic elements of the display."""
    if issubclass(type(it), Sym):
        it = chars(it)
    if type(it) is VIter:
        return it.rest()
    if Ctx.cur is not None and _marked(it):
        return [Seg(b, e, (Sentinel,), "entry") if b else e for b, e in _flat(it)] if not isinstance(it, (list, tuple)) else it
    return it


def vc_iter(it, carried):
    if issubclass(type(it), Sym):
        it = chars(it)
    if type(it) is VIter:
        it = it.rest()
    if Ctx.cur is None or not _marked(it):
        return it
    it = _values(it)
    if carried == "first":
        return [VIter([next(iter(it))]).next()]
    if carried:
        f = sys._getframe(1)
        raise Unsupported(f"loop-carried state over an unbounded collection ({f.f_code.co_name})")
    return _iterate(list(it), sys._getframe(1))


def _iterate(items, frame):
    c = ctx()
    for e in items:
        te = type(e)
        if te is Seg:
            g = GenericCtx(e.base, frozenset(), frame, False)
            x = e.elem
        elif te is GKey:
            g = GenericCtx(e.base, e.excludes, frame, False)
            x = e.key
        elif te is tuple and len(e) == 2 and type(e[0]) is GKey:
            g = GenericCtx(e[0].base, e[0].excludes, frame, False)
            x = (e[0].key, e[1])
        else:
            yield e
            continue
        c.generic.append(g)
        done = False
        n = c.nd
        try:
            yield x
            done = True
        finally:
            g.base.nd += c.nd - n
            if not done and g.base.nd:
                g.base.tainted = True
            if c.generic and c.generic[-1] is g:
                c.generic.pop()
            elif g in c.generic:
                c.generic.remove(g)
            if not done and g.writes:
                c.broken = "early exit from an unbounded loop that writes"


# --------------------------------------------------------------------------- calls
_IDENT_OK = {isinstance, issubclass, callable, id, getattr, hasattr, dataclasses.is_dataclass,
             dataclasses.fields, print}
_LIST_METHODS = {"append", "extend", "insert", "copy", "clear", "pop", "reverse"}
_NATIVE_MODULES = ("typing", "types", "inspect", "abc", "typing_extensions", "typing_inspect", "logging")

EXTRA: dict = {}          # callable -> model(args, kwargs)


def m_is_dataclass(args, kwargs):
    x = args[0]
    if issubclass(type(x), SymV):
        return dataclasses.is_dataclass(x.pycls)
    return dataclasses.is_dataclass(x)


EXTRA[dataclasses.is_dataclass] = m_is_dataclass


def _is_partial(f):
    return type(f) is functools.partial


def vc_call(f, *args, **kwargs):
    if Ctx.cur is None:
        if f is exec:
            return m_exec(*args, **kwargs)
        return f(*args, **kwargs)
    tf = type(f)
    if tf is types.FunctionType:
        if f.__globals__.get("__name__") in INSTRUMENTED or f.__code__.co_filename.startswith("<vc:"):
            return f(*args, **kwargs)
    if _is_partial(f):
        return vc_call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if f is type and len(args) == 1:
        a = args[0]
        if issubclass(type(a), SymV):
            return a.pycls
        if type(a) is SymBool:
            return bool
        return type(a)
    if f is exec:
        return m_exec(*args, **kwargs)
    try:
        ex = EXTRA.get(f)
    except TypeError:
        ex = None
    if ex is not None:
        return ex(args, kwargs)
    sym = False
    for a in args:
        if symbolic(a) or type(a) is VIter:
            sym = True
            break
    if not sym:
        for a in kwargs.values():
            if symbolic(a) or type(a) is VIter:
                sym = True
                break
    if not sym:
        slf = getattr(f, "__self__", None)
        if slf is not None and tf is types.BuiltinMethodType and not isinstance(slf, types.ModuleType):
            return m_method(f, slf, args, kwargs)
        if isinstance(f, type) and dataclasses.is_dataclass(f) and any(deep_symbolic(a) for a in args + tuple(kwargs.values())):
            return m_dataclass(f, args, kwargs)
        if tf is functools._lru_cache_wrapper or not args:
            return f(*args, **kwargs)
        if args and _has_deep(args):
            return vc_call_deep(f, tf, args, kwargs)
        return f(*args, **kwargs)
    return vc_call_sym(f, tf, args, kwargs)


def _has_deep(args):
    for a in args:
        if hasattr(type(a), "__dataclass_fields__") and deep_symbolic(a):
            return True
    return False


def vc_call_deep(f, tf, args, kwargs):
    """Arguments are dataclass instances that hold symbolic values somewhere."""
    if _ident_ok(f) or f is iter or f is id or f is type:
        return f(*args, **kwargs)
    mod = getattr(f, "__module__", None)
    call = getattr(tf, "__call__", None)
    if isinstance(call, types.FunctionType) and call.__globals__.get("__name__") in INSTRUMENTED:
        return call(f, *args, **kwargs)
    if f is str or f is repr:
        return "<text>"
    if f is _bearable():
        return m_bearable(*args, **kwargs)
    if is_plum(f):
        return m_plum(f, args, kwargs)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*args, **kwargs)
        if f in (list, tuple, set, frozenset, dict):
            return f(*args, **kwargs)
        if issubclass(f, enum.Enum):
            return f(*args, **kwargs)
    if f is copy.deepcopy or f is copy.copy:
        raise Unsupported("copy of a symbolic object")
    if tf is types.MethodType or tf is types.FunctionType:
        # methods of case classes etc. run natively (their bodies are instrumented)
        g = getattr(f, "__globals__", None) or getattr(getattr(f, "__func__", None), "__globals__", {})
        if g.get("__name__") in INSTRUMENTED:
            return f(*args, **kwargs)
    if mod in _NATIVE_MODULES:
        return f(*args, **kwargs)
    if f is setattr or f is object.__setattr__ or f is object.__new__:
        return f(*args, **kwargs)
    raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} on a symbolic object")


def _ident_ok(f):
    try:
        return f in _IDENT_OK
    except TypeError:
        return False


def _bearable():
    from beartype.door import is_bearable
    return is_bearable


def is_plum(f):
    if type(f) is types.MethodType:
        f = f.__func__
    return (type(f).__module__ or "").startswith("plum") and hasattr(f, "_f")


def literals_of(hint):
    """The values listed by a Literal, alone or as an arm of a union."""
    import typing
    o = typing.get_origin(hint)
    if o is typing.Literal:
        return list(typing.get_args(hint))
    if o is typing.Union or o is types.UnionType:
        return [v for h in typing.get_args(hint) for v in literals_of(h)]
    return []


def stand_in(x, hint):
    """A concrete value the type checker treats like x: one of the same dynamic classes, and of the
    same value as x where the hint lists values."""
    t = type(x)
    if t in (SymInt, SymStr) and x.pycls in (int, str):
        lits = [v for v in literals_of(hint) if type(v) is x.pycls]
        if lits:
            for v in lits:
                if x == v:
                    return v
            return max(lits) + 1 if x.pycls is int else max(lits, key=len) + "'"
    return E.representative(x)


def m_bearable(o, hint, *a, **k):
    used("beartype verdict depends only on the dynamic classes of the value")
    return _bearable()(stand_in(o, hint), hint, *a, **k)


def m_plum(f, args, kwargs):
    used("plum dispatch depends only on the dynamic classes of the arguments")
    if type(f) is types.MethodType:
        f = f.__func__
    fn, slf = f._f, f._instance
    reps = tuple(E.representative(a) for a in args)
    fn.methods                                  # resolves pending registrations
    method = fn._resolver.resolve((slf,) + reps)
    return method.implementation(slf, *args, **kwargs)


_NOOP_POST = lambda self, *a, **k: None


def m_dataclass(cls, args, kwargs):
    """Contract of a dataclass constructor: the (possibly beartype-checked) __init__ rejects exactly
    by the dynamic classes of the arguments, else stores each argument under its field."""
    used("beartype verdict depends only on the dynamic classes of the value")
    hints = {f.name: f.type for f in dataclasses.fields(cls)}
    params = [f.name for f in dataclasses.fields(cls) if f.init and not f.kw_only]
    ra = [stand_in(a, hints.get(n)) for n, a in zip(params, args)] + [E.representative(a) for a in args[len(params):]]
    rk = {k: stand_in(v, hints.get(k)) for k, v in kwargs.items()}
    post = None
    owner = None
    if hasattr(cls, "__post_init__"):
        for k in cls.__mro__:
            if "__post_init__" in vars(k):
                owner, post = k, vars(k)["__post_init__"]
                break
    init = cls.__init__
    raw = init
    while hasattr(raw, "__wrapped__"):
        raw = raw.__wrapped__
    if raw is init:
        # not type-checked: the generated __init__ only stores (and runs __post_init__)
        o = cls.__new__(cls)
        raw(o, *args, **kwargs)
        return o
    if post is not None:
        owner.__post_init__ = _NOOP_POST
    try:
        cls(*ra, **rk)          # raises what the real constructor raises
    finally:
        if post is not None:
            owner.__post_init__ = post
    if cls.__new__ is not object.__new__:
        raise Unsupported("custom __new__")
    o = object.__new__(cls)
    if post is not None and raw is not init:
        # beartype may wrap __post_init__ too: it only checks parameters
        pass
    raw(o, *args, **kwargs)
    return o


def m_enum(cls, x):
    t = type(x)
    if t is SymV or issubclass(t, SymV) or symbolic(x):
        if issubclass(cls, enum.Flag):
            raise Unsupported("Flag of symbolic value")
        if isinstance(x, (list, tuple, dict, set, frozenset)):
            if "_missing_" in vars(cls) or any(isinstance(m._value_, (list, tuple, dict, set, frozenset)) for m in cls):
                raise Unsupported("enum of a container")
            raise ValueError(f"container is not a valid {cls.__qualname__}")
        if "_missing_" in vars(cls):
            raise Unsupported("_missing_")
        for m in cls:
            v = m._value_
            r = (x == v)
            if r is not NotImplemented and r:
                return m
        raise ValueError(f"symbolic value is not a valid {cls.__qualname__}")
    return cls(x)


def m_exec(code, g=None, l=None):
    if isinstance(code, str):
        from . import instr
        instr.STATS["generated"] += 1
        try:
            code = instr.transform(code, f"<vc:generated {instr.STATS['generated']}>")
        except SyntaxError:
            pass
    if g is None:
        raise Unsupported("exec without globals")
    return exec(code, g, l) if l is not None else exec(code, g)


def m_method(f, slf, args, kwargs):
    """Builtin method of a native object; no shallow-symbolic arguments."""
    name = f.__name__
    c = Ctx.cur
    if isinstance(slf, (list, dict, set, collections.deque)) and not isinstance(slf, type):
        mk = has_marker(slf)
        if mk:
            if isinstance(slf, dict):
                if name in ("items", "keys", "values", "copy"):
                    return f(*args)
                if name in ("get", "__contains__", "__getitem__") and args[0] not in slf:
                    present, v = _lookup(slf, args[0])
                    if name == "__contains__":
                        return present
                    if present:
                        return v
                if name in ("pop", "setdefault") and args[0] not in slf:
                    for k in slf:
                        if type(k) is GKey:
                            _excluded(k, args[0])
                if name in ("get", "pop", "setdefault", "__contains__", "__getitem__"):
                    return f(*args, **kwargs)
                if name == "update":
                    if kwargs:
                        raise Unsupported("dict.update")
                    _merge(slf, args[0] if isinstance(args[0], dict) else dict(args[0]))
                    return None
            elif name in ("append", "extend", "copy", "add"):
                return f(*args)
            raise Unsupported(f"{name} on an unbounded {type(slf).__name__}")
        if c.generic and _outer_old(slf) is not None and name in ("append", "add", "extend", "insert", "update", "setdefault", "pop",
                                  "remove", "clear", "appendleft", "discard"):
            return _generic_write(f, slf, name, args)
    return f(*args, **kwargs)


def _generic_write(f, slf, name, args):
    g = _outer_old(slf)
    if name in ("append", "add") and len(args) == 1:
        if g.nested or g is not ctx().generic[-1]:
            raise Unsupported("write inside an unbounded comprehension")
        g.writes += 1
        s = Seg(g.base, args[0], (Sentinel,), "entry")
        f(s)
        return None
    raise Unsupported(f"{name} inside an unbounded loop")


def vc_call_sym(f, tf, args, kwargs):
    # ---- bound builtin methods
    if tf is types.BuiltinMethodType or tf is types.MethodWrapperType:
        slf = getattr(f, "__self__", None)
        if isinstance(slf, type):
            if f.__name__ == "fromisoformat":
                return m_iso(slf)(*args)
            if f.__name__ == "__new__":
                return f(*args)
        elif slf is not None and not isinstance(slf, types.ModuleType):
            return m_symmethod(f, slf, args, kwargs)
    if getattr(f, "_vc_ok", False):
        return f(*args, **kwargs)
    call = getattr(tf, "__call__", None)
    if isinstance(call, types.FunctionType) and call.__globals__.get("__name__") in INSTRUMENTED:
        return call(f, *args, **kwargs)
    if _ident_ok(f):
        return f(*args, **kwargs)
    if f is len:
        x = args[0]
        if issubclass(type(x), Sym):
            return len(x)
        n = 0
        e = None
        for y in x:
            ty = type(y)
            if ty is Seg or ty is GKey:
                e = y.base.len if e is None else e + y.base.len
            else:
                n += 1
        return n if e is None else e + n
    if f is bool:
        return bool(args[0])
    if f is str:
        return m_str(args[0])
    if f is repr:
        return "<repr>"
    if f is iter:
        x = args[0]
        if issubclass(type(x), Sym):
            return iter(x)
        if type(x) is VIter:
            return x
        return VIter(x) if has_marker(x) else iter(x)
    if f is next:
        return args[0].next() if type(args[0]) is VIter else f(*args)
    if f in (any, all):
        return m_quant(f is any, args[0])
    if f is map and len(args) == 2:
        return vc_comp("gen", args[1], None, lambda x: vc_call(args[0], x), False)
    if f is filter and len(args) == 2:
        return vc_comp("gen", args[1], (lambda x: x) if args[0] is None else lambda x: vc_call(args[0], x), lambda x: x, False)
    if f is zip and any(_marked(a) for a in args):
        return m_zip(args)
    if isinstance(f, type):
        return m_class(f, args, kwargs)
    if f is _bearable():
        return m_bearable(*args, **kwargs)
    if tf is functools._lru_cache_wrapper:
        return vc_call(f.__wrapped__, *args, **kwargs)
    if is_plum(f):
        return m_plum(f, args, kwargs)
    if tf is types.MethodType:
        if f.__func__.__globals__.get("__name__") in INSTRUMENTED if hasattr(f.__func__, "__globals__") else False:
            return f(*args, **kwargs)
        if isinstance(f.__self__, type) and f.__name__ == "fromisoformat":
            return m_iso(f.__self__)(*args)
        if isinstance(f.__self__, logging.Logger):
            return None
    if tf is types.FunctionType:
        g = f.__globals__.get("__name__")
        if g in INSTRUMENTED or f.__code__.co_filename.startswith("<vc:"):
            return f(*args, **kwargs)
        if g in _NATIVE_MODULES:
            if g == "logging":
                return None
            return f(*args, **kwargs)
        if f is copy.deepcopy:
            return m_deepcopy(args[0])
        if hasattr(f, "__wrapped__"):
            w = f.__wrapped__
            if getattr(w, "__globals__", {}).get("__name__") in INSTRUMENTED:
                return w(*args, **kwargs)
    if f is setattr or f is object.__setattr__:
        return f(*args, **kwargs)
    if f is zip and any(_marked(a) for a in args):
        return m_zip(args)
    if f is zip or f is enumerate:
        if any(_marked(a) for a in args):
            raise Unsupported(f"{f.__name__} over an unbounded collection")
        return f(*args, **kwargs)
    # callable instances of instrumented classes (e.g. Func.__call__)
    call = getattr(type(f), "__call__", None)
    if isinstance(call, types.FunctionType) and call.__globals__.get("__name__") in INSTRUMENTED:
        return call(f, *args, **kwargs)
    if typing.get_origin(f) is not None or isinstance(f, typing.NewType):
        if isinstance(f, typing.NewType):
            return args[0]
        return vc_call(typing.get_origin(f), *args, **kwargs)
    if tf is types.MethodDescriptorType:
        raise Unsupported(f"{f}")
    raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} on symbolic values")


def m_deepcopy(x):
    if issubclass(type(x), SymV):
        return x
    raise Unsupported("deepcopy of a symbolic container")


def m_quant(is_any, it):
    if type(it) is VIter:
        it = it.rest()
    for e in it:
        if type(e) is Seg:
            v = bool(e.elem)
            if v != is_any and (e.base.nd or not isinstance(e.elem, bool)):
                raise Unsupported("any/all over a collection whose elements may differ")
        elif type(e) is GKey:
            raise Unsupported("any/all over mapping")
        else:
            v = bool(e)
        if v == is_any:
            return is_any
    return not is_any


def m_symmethod(f, slf, args, kwargs):
    name = f.__name__
    c = ctx()
    if isinstance(slf, list) or isinstance(slf, collections.deque):
        if name == "append":
            if c.generic and _outer_old(slf) is not None:
                return _generic_write(f, slf, name, args)
            return f(*args)
        if name == "extend":
            if c.generic and _outer_old(slf) is not None:
                raise Unsupported("extend in an unbounded loop")
            x = args[0]
            return f(x.rest() if type(x) is VIter else x)
    if isinstance(slf, dict):
        if name in ("get", "__contains__", "__getitem__", "pop"):
            k = args[0]
            if issubclass(type(k), Sym):
                if name == "__contains__":
                    return bool(vc_in(k, slf))
                if name == "pop":
                    raise Unsupported("pop of a symbolic key")
                if vc_in(k, slf):
                    return vc_getitem(slf, k)
                if name == "get":
                    return args[1] if len(args) > 1 else None
                raise KeyError("symbolic")
            if has_marker(slf) and k not in slf and name in ("get", "__getitem__"):
                present, v = _lookup(slf, k)
                if present:
                    return v
            elif has_marker(slf) and k not in slf:
                for q in slf:
                    if type(q) is GKey:
                        _excluded(q, k)
            return f(*args)
        if name == "update" and not (c.generic and _outer_old(slf) is not None):
            a = args[0]
            _merge(slf, a if isinstance(a, dict) else dict(a))
            for k, v in kwargs.items():
                vc_setitem(v, slf, k)
            return None
        if name == "setdefault" and not issubclass(type(args[0]), Sym) and not (c.generic and _outer_old(slf) is not None):
            if has_marker(slf) and args[0] not in slf:
                for q in slf:
                    if type(q) is GKey:
                        _excluded(q, args[0])
            return f(*args)
    if isinstance(slf, set):
        if name == "add":
            a = args[0]
            if c.generic and _outer_old(slf) is not None:
                return _generic_write(f, slf, name, args)
            if issubclass(type(a), Sym):
                raise Unsupported("set.add of a symbolic value")
            return f(*args)
        if name in ("update",):
            x = args[0]
            return f(x.rest() if type(x) is VIter else x)
        if name == "difference" and len(args) == 1:
            return vc_binop("-", slf, set(args[0]))
    if isinstance(slf, str):
        if name == "join":
            return "<joined>"
        if name == "format":
            return "<formatted>"
        if name in ("startswith", "endswith", "__contains__", "__eq__"):
            raise Unsupported(f"str.{name}")
    if isinstance(slf, logging.Logger):
        return None
    raise Unsupported(f"{type(slf).__name__}.{name} on symbolic values")


def _native_items(x):
    if type(x) is VIter:
        return x.rest()
    return x


def m_class(cls, args, kwargs):
    if issubclass(cls, BaseException):
        return cls(*args, **kwargs)
    if dataclasses.is_dataclass(cls):
        return m_dataclass(cls, args, kwargs)
    x = args[0] if args else None
    if issubclass(cls, enum.Enum):
        if len(args) != 1:
            raise Unsupported("enum call")
        return m_enum(cls, x)
    if cls in (list, tuple, set, frozenset, collections.deque):
        if issubclass(type(x), Sym):
            x = chars(x)
        x = _native_items(x)
        if isinstance(x, dict) or type(x) in (E._dk,):
            r = list(x)
            if cls in (set, frozenset):
                return cls(r)
            if any(type(k) is GKey for k in r):
                r = [Seg(k.base, k.key, (Sentinel,), "entry") if type(k) is GKey else k for k in r]
            return cls(r)
        if type(x) is E._di:
            r = [Seg(k[0].base, (k[0].key, k[1]), (Sentinel,), "entry") if type(k[0]) is GKey else k for k in x]
            return cls(r)
        x = _values(x)
        if cls in (set, frozenset):
            for e in x:
                if issubclass(type(e), Sym):
                    need_hash(e)
                    raise Unsupported("set of symbolic scalars")
                need_hash(e.elem if type(e) is Seg else e)
        return cls(x, **kwargs) if cls is collections.deque else cls(x)
    if issubclass(cls, collections.Counter):
        if isinstance(x, dict):
            r = cls()
            for k, v in x.items():
                dict.__setitem__(r, k, v)
            return r
        if issubclass(type(x), Sym):
            x = chars(x)
        x = x.rest() if type(x) is VIter else list(x) if type(x) in (list, tuple, set, frozenset, collections.deque) else x
        if type(x) is list and not x:
            return cls()
        if type(x) is list and len(x) == 1 and type(x[0]) is Seg:
            # the distinct elements, each with a number of occurrences of at least one
            b = x[0].base
            e = need_hash(x[0].elem)
            n = next((n for k, n in b.counts if k is e), None)
            if n is None:
                n = SymInt(z3.Int(ctx().fresh("count")))
                ctx().add(n.e >= 1)
                b.counts.append((e, n))
            r = cls()
            dict.__setitem__(r, GKey(b, e), n)
            return r
        raise Unsupported("Counter of an unbounded iterable")
    if issubclass(cls, dict):
        if issubclass(cls, collections.defaultdict):
            fac, src = args[0], (args[1] if len(args) > 1 else {})
            r = cls(fac)
        else:
            src = x
            r = cls()
        if issubclass(type(src), Sym):
            src = chars(src)
        src = _native_items(src)
        if type(src) is E._di:
            src = dict(src)
        if not isinstance(src, dict):
            d = {}
            for p in src:
                if type(p) is Seg:
                    k, v = p.elem
                    d[GKey(p.base, need_hash(k))] = v
                else:
                    k, v = p
                    d[k] = v
            src = d
        for k, v in src.items():
            dict.__setitem__(r, k, v)
        for k, v in kwargs.items():
            r[k] = v
        return r
    if issubclass(cls, str):
        if cls is not str and (cls.__new__ is not str.__new__ or cls.__init__ is not object.__init__):
            raise Unsupported("custom str subclass")
        r = m_str(x) if not kwargs and len(args) == 1 else None
        if r is None:
            raise Unsupported("str with encoding")
        if cls is str:
            return r
        if type(r) is not SymStr:
            return SymStr(z3.String(ctx().fresh("text")), cls)
        return SymStr(r.e, cls)
    if issubclass(cls, bool):
        return bool(x)
    if issubclass(cls, int):
        if len(args) != 1:
            raise Unsupported("int(x, base)")
        if not issubclass(type(x), Sym):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number")
        return m_int(cls, x)
    if issubclass(cls, float):
        if not issubclass(type(x), Sym):
            raise TypeError("float() argument must be a string or a real number")
        return m_float(cls, x)
    if cls is bytes:
        if type(x) is SymBytes:
            return x
        raise Unsupported("bytes()")
    if cls in STR_PARSE or issubclass(cls, pathlib.PurePath):
        if len(args) != 1 or kwargs:
            raise Unsupported("constructor arity")
        if not issubclass(type(x), Sym):
            if cls is uuid.UUID:
                raise AttributeError("no attribute 'replace'")
            if cls is decimal.Decimal:
                if isinstance(x, (dict, set, frozenset)):
                    raise TypeError("conversion to Decimal is not supported")
                return _maybe_obj(cls, x)
            if issubclass(cls, pathlib.PurePath):
                raise TypeError("argument should be a str or an os.PathLike object")
            if isinstance(x, (dict, list, set, frozenset)) or cls in (ipaddress.IPv4Address, ipaddress.IPv6Address):
                raise ValueError("does not appear to be an address")
            return _maybe_obj(cls, x)
        return m_parse(cls, x)
    if cls is enumerate or cls is zip or cls is reversed or cls is map or cls is filter:
        if any(_marked(a) for a in args if not callable(a)):
            raise Unsupported(f"{cls.__name__} over an unbounded collection")
        return cls(*args, **kwargs)
    if cls is functools.partial:
        return cls(*args, **kwargs)
    if cls is type:
        return type(x)
    if cls is slice:
        return cls(*args)
    if cls.__module__ in INSTRUMENTED or getattr(cls, "_vc_native", False):
        return cls(*args, **kwargs)
    if cls is object:
        return object()
    # generic classes defined in case modules run their own (instrumented) __init__
    raise Unsupported(f"constructor {cls.__module__}.{cls.__qualname__} on symbolic values")


class _Instrumented:
    """Names of the modules whose source was instrumented."""

    def __init__(self):
        self.extra = set()

    def __contains__(self, name):
        if not name:
            return False
        return (name == "serde" or name.startswith("serde.") or name.startswith("vccase_")
                or name.startswith("vc.") or name in self.extra)


INSTRUMENTED = _Instrumented()
INSTRUMENTED.extra.update({"vc.types", "vc.spec"})


def install_runtime():
    b = builtins
    b.__dict__["__vc_call__"] = vc_call
    b.__dict__["__vc_getitem__"] = vc_getitem
    b.__dict__["__vc_setitem__"] = vc_setitem
    b.__dict__["__vc_in__"] = vc_in
    b.__dict__["__vc_comp__"] = vc_comp
    b.__dict__["__vc_iter__"] = vc_iter
    b.__dict__["__vc_star__"] = vc_star
    b.__dict__["__vc_dict__"] = vc_dict
    b.__dict__["__vc_fstr__"] = vc_fstr
    b.__dict__["__vc_binop__"] = vc_binop
