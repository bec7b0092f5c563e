"""Run-time helpers called by instrumented code, and the instrumenting importer."""
import ast
import builtins
import collections
import collections.abc
import enum
import functools
import importlib.abc
import importlib.util
import operator
import os
import struct
import sys
import types

from . import engine as eng
from . import terms as tm
from . import values as v
from .values import (
    MARK, SymBool, SymByteArray, SymBytes, SymInt, bytes_like, check_byte, int_from_bytes,
    is_sym, mkbytes, typed_int, unsupported,
)

ENTERED = set()  # functions of the code under test that were executed


def sx_enter(name):
    ENTERED.add(name)


def contains_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (tuple, list)):
        for y in x:
            if contains_sym(y, depth - 1):
                return True
    if depth and type(x) is dict:
        for y in x.values():
            if contains_sym(y, depth - 1):
                return True
    return False


def has_mark(s):
    return isinstance(s, str) and MARK in s


# --------------------------------------------------------------- call handlers


def h_bytes(*a, **k):
    if not a and not k:
        return b""
    x = a[0]
    if type(x) in (SymBytes, SymByteArray):
        return mkbytes(x.e)
    if len(a) > 1 or k or isinstance(x, str):
        return bytes(*a, **k)
    if type(x) is SymInt and x.pytype is None or isinstance(x, int):
        n = x.concrete() if type(x) is SymInt else x
        if type(x) is SymBool:
            n = int(bool(x))
        return bytes(n)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    m = getattr(type(x), "__bytes__", None)
    if m is not None:
        return m(x)
    return mkbytes([check_byte(i) for i in x])


def h_bytearray(*a, **k):
    if not a and not k:
        return SymByteArray([])
    x = a[0]
    if isinstance(x, str):
        return SymByteArray(list(bytearray(*a, **k)))
    if type(x) is SymInt:
        return SymByteArray([0] * x.concrete())
    if isinstance(x, int) and not is_sym(x):
        return SymByteArray([0] * x)
    return SymByteArray([check_byte(i) for i in x])


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x.plain()
        if type(x) is SymBool:
            return x._as_int()
        if has_mark(x):
            unsupported("int() of a formatted symbolic value")
    return int(*a, **k)


def h_bool(*a):
    return bool(*a)


def h_str(*a, **k):
    if len(a) == 1 and not k and is_sym(a[0]):
        return MARK
    return str(*a, **k)


def h_mark(name, f):
    def h(*a, **k):
        if any(is_sym(x) for x in a):
            return MARK
        return f(*a, **k)

    return h


def h_type(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a, **k)


def h_range(*a):
    if not any(type(x) is SymInt for x in a):
        return range(*a)
    return _LazyRange(*a)


class _LazyRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0])
        if len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        self.step = v.conc_index(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def _conc(self):
        return range(v.conc_index(self.start), v.conc_index(self.stop), self.step)

    def __len__(self):
        return len(self._conc())

    def __reversed__(self):
        return reversed(self._conc())

    def __getitem__(self, i):
        return self._conc()[i]

    def __contains__(self, x):
        return any(x == y for y in self)


def h_map(f, *its):
    if len(its) == 1:
        return (sx_call(f, x) for x in its[0])
    return (sx_call(f, *xs) for xs in zip(*its))


def h_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if sx_call(f, x))


def h_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


def h_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return SymBytes(x.e)
    return memoryview(x)


def h_hash(x):
    if eng.CUR is not None and eng.CUR.keyed and (has_mark(x) or is_sym(x)):
        return v.KEY_HASH
    if has_mark(x):
        unsupported("hash of a formatted symbolic value")
    return hash(x)


def h_getattr(o, n, *d):
    if has_mark(n):
        unsupported("attribute named by a symbolic value")
    return getattr(o, n, *d)


def h_isinstance(o, c):
    return isinstance(o, c)


def h_ord(x):
    if type(x) in (SymBytes, SymByteArray):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.e[0]
    return ord(x)


def h_sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def h_chr(x):
    return chr(x.concrete()) if type(x) is SymInt else chr(x)


def h_bytes_fromhex(*a):
    if any(has_mark(x) for x in a):
        unsupported("bytes.fromhex of a formatted symbolic value")
    return bytes.fromhex(*a)


# struct ---------------------------------------------------------------------

_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8,
          "?": 1, "x": 1, "c": 1}


def _fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    std = False
    if fmt[:1] in "<>!=@":
        c = fmt[:1]
        fmt = fmt[1:]
        if c in ">!":
            order = "big"
        std = c != "@"
    out = []
    num = ""
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else None
        num = ""
        if ch == "s":
            out.append(("s", 1 if n is None else n))
            continue
        if ch not in _SIZES:
            return None
        if not std and _SIZES[ch] > 1 and (out or n not in (None, 1)):
            return None  # native alignment: not modelled
        if not std and ch in "lL":
            return None
        out += [(ch, _SIZES[ch])] * (1 if n is None else n)
    return order, out


def h_pack(fmt, *vals):
    if not contains_sym(vals):
        return struct.pack(fmt, *vals)
    p = _fmt(fmt)
    if p is None:
        unsupported("struct format %r" % (fmt,))
    order, items = p
    out = []
    vals = list(vals)
    if len([1 for c, n in items if c != "x"]) != len(vals):
        raise struct.error("pack expected %d items" % len(items))
    for c, n in items:
        if c == "x":
            out.append(0)
            continue
        x = vals.pop(0)
        if c in "sc":
            b = list(x)[:n]
            out += b + [0] * (n - len(b))
        elif c == "?":
            out.append(1 if x else 0)
        else:
            if type(x) is SymBool:
                x = x._as_int()
            if not isinstance(x, int):
                raise struct.error("required argument is not an integer")
            try:
                out += list(SymInt.to_bytes(x, n, order, signed=c.islower()) if type(x) is SymInt
                            else int(x).to_bytes(n, order, signed=c.islower()))
            except OverflowError as e:
                raise struct.error(str(e))
    return mkbytes(out)


def h_unpack(fmt, data):
    if not is_sym(data):
        return struct.unpack(fmt, data)
    p = _fmt(fmt)
    if p is None:
        unsupported("struct format %r" % (fmt,))
    order, items = p
    if sum(n for c, n in items) != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % sum(n for c, n in items))
    out = []
    e = data.e
    for c, n in items:
        b, e = e[:n], e[n:]
        if c == "x":
            continue
        if c in "sc":
            out.append(mkbytes(b))
        elif c == "?":
            out.append(b[0] != 0)
        else:
            out.append(int_from_bytes(b, order, c.islower()))
    return tuple(out)


def h_unpack_from(fmt, data, offset=0):
    if not is_sym(data):
        return struct.unpack_from(fmt, data, offset)
    n = struct.calcsize(fmt)
    offset = v.conc_index(offset)
    if len(data) - offset < n:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + n))
    return h_unpack(fmt, data[offset:offset + n])


HANDLERS = {}


def _reg(f, h):
    HANDLERS[id(f)] = (f, h)


_reg(bytes, h_bytes)
_reg(bytearray, h_bytearray)
_reg(int, h_int)
_reg(str, h_str)
_reg(type, h_type)
_reg(range, h_range)
_reg(map, h_map)
_reg(filter, h_filter)
_reg(functools.reduce, h_reduce)
_reg(memoryview, h_memoryview)
_reg(hash, h_hash)
_reg(getattr, h_getattr)
_reg(ord, h_ord)
_reg(chr, h_chr)
_reg(sum, h_sum)
for _n in ("hex", "bin", "oct", "repr", "ascii"):
    _reg(getattr(builtins, _n), h_mark(_n, getattr(builtins, _n)))
_reg(struct.pack, h_pack)
_reg(struct.unpack, h_unpack)
_reg(struct.unpack_from, h_unpack_from)


# sets with symbolic members -----------------------------------------------------


class SymDict(collections.abc.MutableMapping):
    """A dictionary some of whose keys are symbolic: scanned instead of hashed."""

    def __init__(self, pairs=()):
        self._p = []
        for k, x in pairs:
            self[k] = x

    def _at(self, k):
        for i, (c, _) in enumerate(self._p):
            if bool(c == k):
                return i
        return -1

    def __getitem__(self, k):
        i = self._at(k)
        if i < 0:
            raise KeyError(k)
        return self._p[i][1]

    def __contains__(self, k):
        return sx_in(k, [c for c, _ in self._p]) if type(k) in (int, SymInt) else self._at(k) >= 0

    def __setitem__(self, k, x):
        i = self._at(k)
        if i < 0:
            self._p.append((k, x))
        else:
            self._p[i] = (self._p[i][0], x)

    def __delitem__(self, k):
        i = self._at(k)
        if i < 0:
            raise KeyError(k)
        del self._p[i]

    def __iter__(self):
        return iter([k for k, _ in self._p])

    def __len__(self):
        return len(self._p)

    def copy(self):
        return SymDict(self._p)

    def __repr__(self):
        return MARK

    __str__ = __repr__


def h_dict_of(pairs):
    pairs = list(pairs)
    if any(_sym_key(p[0]) for p in pairs):
        return SymDict(pairs)
    return dict(pairs)


def h_dict(*a, **k):
    if a and not isinstance(a[0], collections.abc.Mapping):
        pairs = [tuple(p) for p in a[0]]
        if any(_sym_key(p[0]) for p in pairs):
            r = SymDict(pairs)
            r.update(k)
            return r
        return dict(pairs, **k)
    if a and type(a[0]) is SymDict:
        r = a[0].copy()
        r.update(k)
        return r
    return dict(*a, **k)


class SymSet(collections.abc.MutableSet):
    """A set some of whose members are symbolic: scanned instead of hashed."""

    def __init__(self, items=()):
        self._raw = list(items)
        self._n = 0  # so many members of _raw are known to be distinct

    @classmethod
    def _from_iterable(cls, it):
        return h_set(it)

    def _distinct(self):
        r = self._raw
        while self._n < len(r):
            i = self._n
            if any(bool(r[i] == y) for y in r[:i]):
                del r[i]
            else:
                self._n += 1
        return r

    def __contains__(self, x):
        return sx_in(x, self._raw) if type(x) in (int, SymInt) else any(bool(x == y) for y in self._raw)

    def __iter__(self):
        return iter(list(self._distinct()))

    def __len__(self):
        return len(self._distinct())

    def __bool__(self):
        return bool(self._raw)

    def add(self, x):
        self._raw.append(x)

    def discard(self, x):
        self._raw = [y for y in self._distinct() if not x == y]
        self._n = len(self._raw)

    def copy(self):
        return SymSet(self._raw)

    def update(self, *its):
        for it in its:
            self._raw.extend(it)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def difference(self, *its):
        r = self
        for it in its:
            o = h_set(it)
            r = h_set([x for x in r if not sx_in(x, o)])
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            o = h_set(it)
            r = h_set([x for x in r if sx_in(x, o)])
        return r

    def symmetric_difference(self, it):
        return self ^ h_set(it)

    def difference_update(self, *its):
        self._raw, self._n = list(self.difference(*its)), 0

    def intersection_update(self, *its):
        self._raw, self._n = list(self.intersection(*its)), 0

    def issubset(self, it):
        o = h_set(it)
        return all(sx_in(x, o) for x in self)

    def issuperset(self, it):
        return all(sx_in(x, self) for x in it)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        return isinstance(o, collections.abc.Set) and self.issubset(o) and self.issuperset(o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self <= o and not self >= o

    def __gt__(self, o):
        return self >= o and not self <= o

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.difference(o).union(h_set(o).difference(self) if type(h_set(o)) is SymSet
                                        else SymSet(o).difference(self))

    __rxor__ = __xor__
    __hash__ = None

    def __repr__(self):
        return MARK

    __str__ = __repr__


def h_set(*a):
    if not a:
        return set()
    items = list(a[0])
    if any(_sym_key(x) for x in items):
        return SymSet(items)
    return set(items)


def h_frozenset(*a):
    r = h_set(*a)
    return frozenset(r) if type(r) is set else r


_reg(set, h_set)
_reg(frozenset, h_frozenset)
_reg(dict, h_dict)


# dictionaries with symbolic keys ------------------------------------------------


def _sym_key(k):
    t = type(k)
    if t is SymInt or t is SymBytes or t is SymBool:
        return True
    if t is tuple:
        for x in k:
            if _sym_key(x):
                return True
        return False
    if issubclass(t, (tuple, list)) and t.__hash__ is not None:
        return any(_sym_key(x) for x in k)
    return False


def dirty(d):
    """A native dictionary or set with symbolic keys (they are stored under one common hash)."""
    e = eng.CUR
    if e is None or not e.dirty:
        return False
    for c in d:
        if _sym_key(c):
            return True
    return False


def _keq(a, b):
    t = type(a)
    if t is type(b) and issubclass(t, (tuple, list)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = _keq(x, y)
            if e is False:
                return False
            if e is not True:
                r = e if r is True else r & e
        return r
    if type(a) is type(b) and (a is b):
        return True
    r = a == b
    return r if type(r) in (bool, SymBool) else bool(r)


def find_key(d, k):
    """The key of d equal to k (forks), or _none."""
    if not _sym_key(k):
        if not dirty(d):
            return k if k in d else _none
        if _keyed(d.__contains__, k):
            return k
        cs = [c for c in d if _sym_key(c)]
    else:
        cs = list(d)
    for c in cs:
        if type(c) is str or c is None:
            continue
        if _keq(k, c):
            return c
    return _none


def _keyed(f, *a):
    """f(*a), where symbolic keys hash to one value."""
    e = eng.CUR
    if e is None:
        return f(*a)
    was, e.keyed = e.keyed, True
    try:
        return f(*a)
    finally:
        e.keyed = was


def put(d, k, x):
    """d[k] = x"""
    if _sym_key(k) or dirty(d):
        c = find_key(d, k)
        if c is not _none:
            return _keyed(operator.setitem, d, c, x)
        if _sym_key(k):
            eng.CUR.dirty = True
        return _keyed(operator.setitem, d, k, x)
    d[k] = x


def put_member(s, k):
    if find_key(s, k) is _none:
        if _sym_key(k):
            eng.CUR.dirty = True
        _keyed(s.add, k)


_none = object()
_SET_OPS = {"union", "difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
            "update", "difference_update", "intersection_update", "symmetric_difference_update"}


def h_method(f, s, name, a, k):
    """Bound method of a native object; returns NotImplemented for 'call natively'."""
    ts = type(s)
    if ts is type:
        return NotImplemented
    if isinstance(s, dict):
        if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "__delitem__"):
            if a and (_sym_key(a[0]) or dirty(s)):
                c = find_key(s, a[0])
                if name == "__contains__":
                    return c is not _none
                if name == "__setitem__":
                    return put(s, *a)
                if c is _none:
                    if name == "get":
                        return a[1] if len(a) > 1 else k.get("default")
                    if name == "setdefault":
                        x = a[1] if len(a) > 1 else k.get("default")
                        put(s, a[0], x)
                        return x
                    if name == "pop" and len(a) > 1:
                        return a[1]
                    raise KeyError(MARK if has_mark(a[0]) or _sym_key(a[0]) else a[0])
                return _keyed(f, c, *a[1:])
        elif name == "update" and a and isinstance(a[0], collections.abc.Mapping):
            if dirty(s) or any(_sym_key(x) for x in a[0]):
                for x in list(a[0]):
                    put(s, x, sx_getitem(a[0], x))
                s.update(**k)
                return None
        elif name == "popitem" and dirty(s):
            x = list(s)[-1]
            return x, _keyed(s.pop, x)
        return NotImplemented
    if isinstance(s, (bytes, bytearray)):
        if name == "join":
            its = list(a[0])
            if any(is_sym(x) for x in its):
                return SymBytes(list(s)).join(its)
            return f(its)
        if name in ("decode", "hex", "translate"):
            return NotImplemented
        if any(is_sym(x) for x in a) and hasattr(SymBytes, name):
            if isinstance(s, bytearray):
                unsupported("native bytearray method %s" % name)
            return getattr(SymBytes(list(s)), name)(*a, **k)
        return NotImplemented
    if isinstance(s, str):
        if name == "format" and (contains_sym(a) or contains_sym(k)):
            return MARK
        if name == "join":
            its = list(a[0])
            return f(its)
        return NotImplemented
    if isinstance(s, int) and not is_sym(s):
        if name == "to_bytes" and (contains_sym(a) or contains_sym(list(k.values()))):
            a = [v.conc_index(x) for x in a]
            k = {n: v.conc_index(x) for n, x in k.items()}
            return f(*a, **k)
        return NotImplemented
    if ts is struct.Struct:
        if name == "pack":
            return h_pack(s.format, *a)
        if name == "unpack":
            return h_unpack(s.format, *a)
        if name == "unpack_from":
            return h_unpack_from(s.format, *a, **k)
    if isinstance(s, (set, frozenset)):
        if name in _SET_OPS and (dirty(s) or any(type(x) is SymSet or any(_sym_key(y) for y in x) for x in
                                                 [x if isinstance(x, collections.abc.Sized) else () for x in a])):
            if name == "update":
                for x in [y for z in a for y in z]:
                    put_member(s, x)
                return None
            if name.endswith("update"):
                r = SymSet(s)
                getattr(r, name)(*a)
                s.clear()
                for x in r:
                    put_member(s, x)
                return None
            return getattr(SymSet(s), name)(*a)
        if name in ("add", "__contains__", "discard", "remove") and a and (_sym_key(a[0]) or dirty(s)):
            if name == "add":
                return put_member(s, a[0])
            c = find_key(s, a[0])
            if name == "__contains__":
                return c is not _none
            if c is _none:
                if name == "remove":
                    raise KeyError(MARK)
                return None
            return _keyed(f, c)
        if name == "pop" and dirty(s):
            x = list(s)[0]
            _keyed(s.discard, x)
            return x
    return NotImplemented


def _from_bytes(cls, a, k):
    names = ["bytes", "byteorder"]
    d = dict(zip(names, a))
    d.update(k)
    data = d["bytes"]
    order = d.get("byteorder", "big")
    signed = d.get("signed", False)
    if not (bytes_like(data) and not is_sym(data)) and not isinstance(data, (bytes, bytearray)) or is_sym(data):
        els = [check_byte(x) for x in data]
    else:
        return cls.from_bytes(data, order, signed=bool(signed))
    if not any(type(x) is SymInt for x in els):
        return cls.from_bytes(bytes(els), order, signed=bool(signed))
    return int_from_bytes(els, order, bool(signed), cls)


FunctionType = types.FunctionType
MethodType = types.MethodType


def sx_call(f, /, *a, **k):
    tf = type(f)
    if tf is FunctionType:
        if f is functools.reduce:
            return h_reduce(*a, **k)
        return f(*a, **k)
    if tf is MethodType:
        s = f.__self__
        if type(s) in _NATIVE or isinstance(s, (dict, set)):
            r = h_method(f, s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
        elif isinstance(s, type) and f.__name__ == "from_bytes" and issubclass(s, int):
            return _from_bytes(s, a, k)
        elif s is dict and f.__name__ == "fromkeys":
            return h_dict_of([(x, a[1] if len(a) > 1 else None) for x in a[0]])
        elif s is bytes and f.__name__ == "fromhex":
            return h_bytes_fromhex(*a)
        return f(*a, **k)
    h = HANDLERS.get(id(f))
    if h is not None:
        return h[1](*a, **k)
    if isinstance(f, type):
        if a and type(a[0]) in (SymInt, SymBool) and issubclass(f, int) and len(a) == 1:
            return typed_int(f, a[0])
        if a and type(a[0]) in (SymBytes, SymByteArray) and issubclass(f, (bytes, bytearray)):
            return SymByteArray(a[0].e) if issubclass(f, bytearray) else mkbytes(a[0].e)
        if isinstance(f, enum.EnumMeta) and a and has_mark(a[0]):
            unsupported("enum of a formatted symbolic value")
        return f(*a, **k)
    if tf is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return sx_call(f.func, *(f.args + a), **kk)
    return f(*a, **k)


_NATIVE = {bytes, bytearray, str, int, bool, dict, set, frozenset, struct.Struct}


def sx_getitem(o, k):
    if isinstance(o, dict) and (_sym_key(k) or dirty(o)):
        c = find_key(o, k)
        if c is _none:
            m = getattr(type(o), "__missing__", None)
            if m is not None:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    x = o.default_factory()
                    put(o, k, x)
                    return x
                return m(o, k)
            raise KeyError(MARK if _sym_key(k) else k)
        return _keyed(operator.getitem, o, c)
    if isinstance(o, dict) and has_mark(k):
        unsupported("dict lookup by a formatted symbolic value")
    if isinstance(o, (bytes, list, tuple)) and type(k) is SymInt and len(o) <= 64 and len(o):
        # table lookup by symbolic index over small integers: if-then-else chain
        if all(isinstance(x, int) and type(x) is int and x >= 0 for x in o):
            n = len(o)
            if not (k < n and k >= -n):
                raise IndexError("index out of range")
            if k.lo < 0 and k < 0:
                return o[k.concrete()]
            w = max(1, max(o).bit_length())
            t = tm.const(o[-1], w)
            for i in range(n - 2, -1, -1):
                t = tm.ite(v.bterm(k == i), tm.const(o[i], w), t)
            return v.mkint(t, min(o), max(o))
    return o[k]


def sx_setitem(x, o, k):
    if isinstance(o, dict) and (_sym_key(k) or dirty(o)):
        return put(o, k, x)
    o[k] = x


def sx_delitem(o, k):
    if isinstance(o, dict) and (_sym_key(k) or dirty(o)):
        c = find_key(o, k)
        if c is _none:
            raise KeyError(MARK if _sym_key(k) else k)
        return _keyed(operator.delitem, o, c)
    del o[k]


def sx_augitem(op, o, k, f):
    x = sx_getitem(o, k)
    sx_setitem(_INPLACE[op](x, f()), o, k)


_INPLACE = {n: getattr(operator, "i" + n) for n in (
    "add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "pow", "truediv", "matmul")}
_INPLACE.update({"and": operator.iand, "or": operator.ior, "xor": operator.ixor})


def sx_iset(op, a, b):
    if type(a) is set and _sets(a, b):
        r = list({"or": sx_or, "and": sx_and, "sub": sx_sub, "xor": sx_xor}[op](a, b))
        a.clear()
        for x in r:
            put_member(a, x)
        return a
    return _INPLACE[op](a, b)


def sx_literal(pairs):
    d = {}
    for k, x in pairs:
        put(d, k, x)
    return d


def _sets(a, b):
    ta, tb = type(a), type(b)
    return (ta is set or ta is frozenset) and (tb is set or tb is frozenset) and (dirty(a) or dirty(b))


def sx_sub(a, b):
    return SymSet(a) - SymSet(b) if _sets(a, b) else a - b


def sx_or(a, b):
    return SymSet(a) | SymSet(b) if _sets(a, b) else a | b


def sx_and(a, b):
    return SymSet(a) & SymSet(b) if _sets(a, b) else a & b


def sx_xor(a, b):
    return SymSet(a) ^ SymSet(b) if _sets(a, b) else a ^ b


def sx_in(x, c):
    if isinstance(c, (dict, set, frozenset)) and (_sym_key(x) or dirty(c)):
        return find_key(c, x) is not _none
    if type(c) in (SymSet, SymDict):
        return x in c
    if isinstance(x, int) and type(c) is list and any(type(y) is SymInt for y in c):
        r = False
        for y in c:
            e = y == x
            if e is True:
                return True
            if e is False or e is NotImplemented:
                continue
            r = e if r is False else r | e
        return bool(r)
    if type(x) is SymInt and isinstance(c, (tuple, list, range)) and type(c) in (tuple, list, range):
        if type(c) is range:
            return bool(x in list(c)) if len(c) <= 64 else _in_range(x, c)
        r = False
        for y in c:
            e = x == y
            if e is True:
                return True
            if e is False or e is NotImplemented:
                continue
            r = e if r is False else r | e
        return bool(r)
    if type(x) is SymInt and type(c) is bytes:
        return x in SymBytes(list(c))
    if type(c) is bytes and type(x) in (SymBytes, SymByteArray):
        return SymBytes(list(c)).find(x) >= 0
    if isinstance(c, (dict, set, frozenset)) and has_mark(x):
        unsupported("membership test of a formatted symbolic value")
    return x in c


def _in_range(x, r):
    if r.step != 1:
        unsupported("in range with step")
    return bool(x >= r.start) and bool(x < r.stop)


def sx_notin(x, c):
    return not sx_in(x, c)


def sx_mod(a, b):
    if isinstance(a, str):
        if is_sym(b) or contains_sym(b):
            return MARK
    return a % b


def sx_eq(a, b):
    if (isinstance(a, str) and MARK in a) or (isinstance(b, str) and MARK in b):
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            unsupported("comparison of formatted symbolic values")
    if _sets(a, b):
        return SymSet(a) == SymSet(b)
    if type(a) is dict and type(b) is dict and (dirty(a) or dirty(b)):
        if len(a) != len(b):
            return False
        for k in list(a):
            c = find_key(b, k)
            if c is _none or not sx_eq(_keyed(operator.getitem, a, k), _keyed(operator.getitem, b, c)):
                return False
        return True
    return a == b


NAMES = {
    "__sx_call__": sx_call,
    "__sx_getitem__": sx_getitem,
    "__sx_in__": sx_in,
    "__sx_notin__": sx_notin,
    "__sx_mod__": sx_mod,
    "__sx_eq__": sx_eq,
    "__sx_set__": h_set,
    "__sx_dict__": h_dict_of,
    "__sx_enter__": sx_enter,
    "__sx_setitem__": sx_setitem,
    "__sx_delitem__": sx_delitem,
    "__sx_augitem__": sx_augitem,
    "__sx_literal__": sx_literal,
    "__sx_sub__": sx_sub,
    "__sx_iset__": sx_iset,
    "__sx_or__": sx_or,
    "__sx_and__": sx_and,
    "__sx_xor__": sx_xor,
}


# ------------------------------------------------------------------ instrumentation

SKIP_CALLS = {"super", "locals", "globals", "eval", "exec", "dir"}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname, mark):
        self.mod = modname
        self.mark = mark
        self.stack = []

    def _name(self, n, at):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), at)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (
            f.id in SKIP_CALLS or (f.id == "vars" and not node.args) or f.id.startswith("__sx_")
        ):
            return node
        return ast.copy_location(
            ast.Call(func=self._name("__sx_call__", node), args=[f] + node.args,
                     keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            sl = node.slice
            if isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return ast.copy_location(
                ast.Call(func=self._name("__sx_getitem__", node), args=[node.value, sl],
                         keywords=[]), node)
        return node

    @staticmethod
    def _item(t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and not (
            isinstance(t.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in t.slice.elts))

    def _stmt(self, name, args, at):
        return ast.copy_location(ast.Expr(value=ast.copy_location(
            ast.Call(func=self._name(name, at), args=args, keywords=[]), at)), at)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._item(node.targets[0]):
            t = node.targets[0]
            return self._stmt("__sx_setitem__", [node.value, t.value, t.slice], node)
        if len(node.targets) > 1 and any(self._item(t) for t in node.targets):
            out = [ast.copy_location(ast.Assign(targets=[ast.copy_location(
                ast.Name(id="__sx_value__", ctx=ast.Store()), node)], value=node.value), node)]
            for t in node.targets:
                x = self._name("__sx_value__", node)
                out.append(self._stmt("__sx_setitem__", [x, t.value, t.slice], node) if self._item(t)
                           else ast.copy_location(ast.Assign(targets=[t], value=x), node))
            return out
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._item(node.targets[0]):
            t = node.targets[0]
            return self._stmt("__sx_delitem__", [t.value, t.slice], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        n = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.BitOr: "or", ast.BitAnd: "and",
             ast.BitXor: "xor"}.get(type(node.op))
        if n and self._item(node.target) and self.stack and not any(
                isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(node.value)):
            f = ast.copy_location(ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.value), node)
            t = node.target
            return self._stmt("__sx_augitem__", [ast.copy_location(ast.Constant(n), node), t.value, t.slice, f], node)
        t = node.target
        if n in ("sub", "or", "and", "xor") and (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name)) and not isinstance(node.value, ast.Constant):
            load = self._name(t.id, t) if isinstance(t, ast.Name) else ast.copy_location(
                ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
            call = ast.copy_location(ast.Call(func=self._name("__sx_iset__", node), args=[
                ast.copy_location(ast.Constant(n), node), load, node.value], keywords=[]), node)
            return ast.copy_location(ast.Assign(targets=[t], value=call), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if None in node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = ast.copy_location(ast.List(elts=[
            ast.copy_location(ast.Tuple(elts=[k, x], ctx=ast.Load()), node)
            for k, x in zip(node.keys, node.values)], ctx=ast.Load()), node)
        return ast.copy_location(ast.Call(func=self._name("__sx_literal__", node), args=[pairs], keywords=[]), node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        arg = ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)
        return ast.copy_location(ast.Call(func=self._name("__sx_set__", node), args=[arg], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        arg = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return ast.copy_location(ast.Call(func=self._name("__sx_set__", node), args=[arg], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        arg = ast.copy_location(ast.ListComp(elt=elt, generators=node.generators), node)
        return ast.copy_location(ast.Call(func=self._name("__sx_dict__", node), args=[arg], keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            n = {ast.In: "__sx_in__", ast.NotIn: "__sx_notin__", ast.Eq: "__sx_eq__"}.get(type(op))
            if n:
                return ast.copy_location(
                    ast.Call(func=self._name(n, node), args=[node.left, node.comparators[0]],
                             keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = {ast.Mod: "__sx_mod__", ast.Sub: "__sx_sub__", ast.BitOr: "__sx_or__", ast.BitAnd: "__sx_and__",
             ast.BitXor: "__sx_xor__"}.get(type(node.op))
        if n:
            return ast.copy_location(
                ast.Call(func=self._name(n, node), args=[node.left, node.right],
                         keywords=[]), node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.body = [t for s in node.body for r in [self.visit(s)] for t in (r if isinstance(r, list) else [r])]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        if self.mark:
            st = ast.Expr(ast.Call(func=ast.Name(id="__sx_enter__", ctx=ast.Load()),
                                   args=[ast.Constant(self.mod + ":" + ".".join(self.stack))],
                                   keywords=[]))
            ast.copy_location(st, node.body[0])
            ast.fix_missing_locations(st)
            i = 0
            if isinstance(node.body[0], ast.Expr) and isinstance(
                    getattr(node.body[0], "value", None), ast.Constant):
                i = 1
            node.body.insert(i, st)
        self.stack.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path, mark):
        self.fullname = fullname
        self.path = path
        self.mark = mark

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Instrument(self.fullname, self.mark).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, exact):
        self.roots = roots  # package name -> (directory, mark)
        self.exact = exact

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top in self.roots:
            d, mark = self.roots[top]
            p = os.path.join(d, *fullname.split("."))
            if os.path.isdir(p):
                return importlib.util.spec_from_file_location(
                    fullname, os.path.join(p, "__init__.py"),
                    loader=Loader(fullname, os.path.join(p, "__init__.py"), mark),
                    submodule_search_locations=[p])
            if os.path.exists(p + ".py"):
                return importlib.util.spec_from_file_location(
                    fullname, p + ".py", loader=Loader(fullname, p + ".py", mark))
            return None
        if fullname in self.exact:
            for f in sys.meta_path:
                if f is self or not hasattr(f, "find_spec"):
                    continue
                spec = f.find_spec(fullname, path, target)
                if spec is not None and spec.origin and spec.origin.endswith(".py"):
                    return importlib.util.spec_from_file_location(
                        fullname, spec.origin, loader=Loader(fullname, spec.origin, False),
                        submodule_search_locations=spec.submodule_search_locations)
        return None


def install(repo, verif):
    for n, f in NAMES.items():
        setattr(builtins, n, f)
    sys.meta_path.insert(0, Finder(
        {"zigpy_cc": (repo, True), "checks": (verif, False)},
        {"zigpy.types.basic", "zigpy.types.named", "zigpy.types.struct", "zigpy.device"},
    ))
