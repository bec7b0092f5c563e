"""Proxy values: symbolic booleans, integers (exact Python semantics), bytes."""
import enum
import types

from . import engine as eng
from . import terms as tm

MARK = "\ue000sym\ue001"
KEY_HASH = 0x5EED  # of symbolic keys of native dictionaries and sets


class Unsupported(eng.Inconclusive):
    pass


def unsupported(msg):
    e = eng.CUR
    if e is not None and not e.dead:
        e.abort(Unsupported(msg))
    raise Unsupported(msg)


def E():
    e = eng.CUR
    if e is None:
        raise eng.PathAbort("no engine")
    return e


# ------------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return E().branch(self.t)

    def _as_int(self):
        return mkint(tm.ite(self.t, tm.const(1, 1), tm.const(0, 1)), 0, 1)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        if eng.CUR is not None and eng.CUR.keyed:
            return KEY_HASH
        return hash(bool(self))

    def _other(self, o):
        if type(o) is SymBool:
            return o.t
        if o is True or o is False:
            return tm.boolc(o)
        return None

    def __eq__(self, o):
        t = self._other(o)
        if t is not None:
            return mkbool(tm.eq(self.t, t))
        return self._as_int() == o

    def __ne__(self, o):
        return lnot(self == o)

    def __and__(self, o):
        t = self._other(o)
        if t is not None:
            return mkbool(tm.and_(self.t, t))
        return self._as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        t = self._other(o)
        if t is not None:
            return mkbool(tm.or_(self.t, t))
        return self._as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        t = self._other(o)
        if t is not None:
            return mkbool(tm.not_(tm.eq(self.t, t)))
        return self._as_int() ^ o

    __rxor__ = __xor__

    def __str__(self):
        return MARK

    __repr__ = __str__

    def __format__(self, spec):
        return MARK

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        return getattr(self._as_int(), name)


def _boolop(name):
    def f(self, o):
        return getattr(self._as_int(), name)(o)

    f.__name__ = name
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lshift", "rlshift", "rshift",
           "rrshift", "lt", "le", "gt", "ge", "floordiv", "mod"):
    setattr(SymBool, "__%s__" % _n, _boolop("__%s__" % _n))


def mkbool(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    e = eng.CUR
    if e is not None:
        k = e.known.get(t.id)
        if k is not None:
            return k
    return SymBool(t)


def bterm(b):
    if type(b) is SymBool:
        return b.t
    if type(b) is SymInt:
        return bterm(b != 0)
    return tm.boolc(bool(b))


def lnot(b):
    if type(b) is SymBool:
        return mkbool(tm.not_(b.t))
    return not b


# ------------------------------------------------------------------- integers


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((hi if hi >= 0 else ~hi).bit_length(), (~lo).bit_length()) + 1


def ext(t, signed, w):
    if t.w == w:
        return t
    if t.w > w:
        return tm.extract(w - 1, 0, t)
    return tm.sext(t, w) if signed else tm.zext(t, w)


def mkint(t, lo, hi, pytype=None):
    """Integer with term t (unsigned if lo >= 0, else two's complement)."""
    e = eng.CUR
    if t.op != "const" and e is not None:
        s = e.subst.get(t.id)
        if s is not None:
            t = s
    if t.op == "const":
        v = t.val
        if lo < 0 and v >> (t.w - 1):
            v -= 1 << t.w
        if pytype is not None:
            return pytype(v)
        return v
    w = width_for(lo, hi)
    if t.w > w:
        t = tm.extract(w - 1, 0, t)
        if t.op == "const" or (e is not None and t.id in e.subst):
            return mkint(t, lo, hi, pytype)
    if lo == hi:
        return lo if pytype is None else pytype(lo)
    return SymInt(t, lo, hi, pytype)


def parts(x):
    """(term, signed, lo, hi) of an int-like, or None."""
    if type(x) is SymInt:
        return x._t(), x.lo < 0, x.lo, x.hi
    if type(x) is SymBool:
        x = x._as_int()
        if type(x) is SymInt:
            return x._t(), False, x.lo, x.hi
    if isinstance(x, int):
        v = int(x)
        w = width_for(v, v)
        return tm.const(v, w), v < 0, v, v
    return None


class SymInt:
    __slots__ = ("t", "lo", "hi", "pytype")

    def __init__(self, t, lo, hi, pytype=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.pytype = pytype

    __class__ = property(lambda self: self.pytype or int)

    def _t(self):
        e = eng.CUR
        if e is not None:
            s = e.subst.get(self.t.id)
            if s is not None:
                return s
        return self.t

    # -- concretisation (sound: explores every feasible value) -------------
    def concrete(self):
        v = E().concretize(self.t)
        if self.lo < 0 and v >> (self.t.w - 1):
            v -= 1 << self.t.w
        return v

    __index__ = concrete
    __int__ = concrete

    def __hash__(self):
        if eng.CUR is not None and eng.CUR.keyed:
            return KEY_HASH
        return hash(self.concrete())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        return float(self.concrete())

    # -- comparison ----------------------------------------------------------
    def _cmp(self, o):
        p = parts(o)
        if p is None:
            return None
        return (self._t(), self.lo < 0, self.lo, self.hi), p

    def __eq__(self, o):
        c = self._cmp(o)
        if c is None:
            if isinstance(o, float):
                return self == int(o) if o == int(o) else False
            return NotImplemented
        (a, s, l, h), (b, s2, l2, h2) = c
        if h < l2 or h2 < l:
            return False
        w = max(width_for(min(l, l2), max(h, h2)), 1)
        return mkbool(tm.eq(ext(a, s, w), ext(b, s2, w)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def _lt(self, x, y):
        (a, s, l, h), (b, s2, l2, h2) = x, y
        if h < l2:
            return True
        if l >= h2:
            return False
        w = width_for(min(l, l2), max(h, h2))
        a, b = ext(a, s, w), ext(b, s2, w)
        return mkbool(tm.slt(a, b) if (s or s2) else tm.ult(a, b))

    def _order(self, o, swap, neg):
        if isinstance(o, float) and not isinstance(o, int):
            import math
            if swap == neg:  # self < o  /  self >= o  (not self < o)
                o = math.ceil(o)
            else:
                o = math.floor(o)
        c = self._cmp(o)
        if c is None:
            return NotImplemented
        x, y = c
        r = self._lt(y, x) if swap else self._lt(x, y)
        return lnot(r) if neg else r

    def __lt__(self, o):
        return self._order(o, False, False)

    def __gt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, True, True)

    def __ge__(self, o):
        return self._order(o, False, True)

    # -- arithmetic -----------------------------------------------------------
    def _bin(self, o, f):
        p = parts(o)
        if p is None:
            return NotImplemented
        return f((self._t(), self.lo < 0, self.lo, self.hi), p)

    def __add__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            return self.concrete() + o
        return self._bin(o, _add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) or type(o) in (SymBytes, SymByteArray):
            return o * self.concrete()
        if isinstance(o, float) and not isinstance(o, int):
            return self.concrete() * o
        return self._bin(o, _mul)

    __rmul__ = __mul__

    def __and__(self, o):
        return self._keep(o, self._bin(o, _and))

    __rand__ = __and__

    def __or__(self, o):
        return self._keep(o, self._bin(o, _or))

    __ror__ = __or__

    def __xor__(self, o):
        return self._keep(o, self._bin(o, _xor))

    __rxor__ = __xor__

    def _keep(self, o, r):
        if type(r) is SymInt and self.pytype is not None and issubclass(self.pytype, enum.Flag):
            r = SymInt(r.t, r.lo, r.hi, self.pytype)
        return r

    def __invert__(self):
        return -self - 1

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self.plain()

    def __abs__(self):
        if self.lo >= 0:
            return self.plain()
        return -self if self < 0 else self.plain()

    def plain(self):
        return self if self.pytype is None else SymInt(self.t, self.lo, self.hi)

    def __lshift__(self, o):
        n = o.concrete() if type(o) is SymInt else o
        if not isinstance(n, int):
            return NotImplemented
        if n < 0:
            raise ValueError("negative shift count")
        t = tm.concat([self._t(), tm.const(0, n)]) if n else self._t()
        return mkint(t, self.lo << n, self.hi << n)

    def __rlshift__(self, o):
        return o << self.concrete()

    def __rshift__(self, o):
        n = o.concrete() if type(o) is SymInt else o
        if not isinstance(n, int):
            return NotImplemented
        if n < 0:
            raise ValueError("negative shift count")
        t = self._t()
        lo, hi = self.lo >> n, self.hi >> n
        if n >= t.w:
            if self.lo >= 0:
                return 0
            return -1 if self < 0 else 0
        return mkint(tm.extract(t.w - 1, n, t), lo, hi)

    def __rrshift__(self, o):
        return o >> self.concrete()

    def _divmod(self, o):
        p = parts(o)
        if p is None:
            return None
        a, s, l, h = self._t(), self.lo < 0, self.lo, self.hi
        b, s2, l2, h2 = p
        if s or l2 <= 0:
            c = self.concrete()
            d = o.concrete() if type(o) is SymInt else int(o)
            return divmod(c, d)
        w = max(a.w, b.w)
        a, b = ext(a, False, w), ext(b, False, w)
        return (
            mkint(tm.udiv(a, b), l // h2, h // l2),
            mkint(tm.urem(a, b), 0, min(h, h2 - 1)),
        )

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __rfloordiv__(self, o):
        return int(o) // self.concrete()

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return MARK
        return int(o) % self.concrete()

    def __truediv__(self, o):
        return self.concrete() / o

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __pow__(self, o, m=None):
        o = o.concrete() if type(o) is SymInt else o
        return pow(self.concrete(), o, m)

    def __rpow__(self, o):
        return o ** self.concrete()

    def __round__(self, n=None):
        return self.plain()

    __trunc__ = __floor__ = __ceil__ = lambda self: self.plain()

    # -- int methods -----------------------------------------------------------
    def to_bytes(self, length, byteorder="big", *, signed=False):
        n = length.concrete() if type(length) is SymInt else length
        if signed:
            lo, hi = -(1 << (8 * n - 1)) if n else 0, (1 << (8 * n - 1)) - 1 if n else 0
        else:
            lo, hi = 0, (1 << (8 * n)) - 1
        if self.lo < lo and not (self >= lo):
            raise OverflowError("can't convert negative int to unsigned" if not signed
                                else "int too big to convert")
        if self.hi > hi and not (self <= hi):
            raise OverflowError("int too big to convert")
        if n == 0:
            return b""
        t = ext(self._t(), self.lo < 0, 8 * n)
        els = [byteint(tm.extract(8 * i + 7, 8 * i, t)) for i in range(n)]
        if byteorder == "big":
            els.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mkbytes(els)

    def bit_length(self):
        return self.concrete().bit_length()

    def conjugate(self):
        return self.plain()

    real = numerator = property(lambda self: self.plain())
    imag = property(lambda self: 0)
    denominator = property(lambda self: 1)

    def __getattr__(self, name):
        # attribute lookup must not search int (special methods are defined above)
        pt = object.__getattribute__(self, "pytype") or int
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if isinstance(pt, enum.EnumMeta) and name in ("value", "_value_"):
            return self.plain()
        if isinstance(pt, enum.EnumMeta) and name in ("name", "_name_"):
            return MARK
        for c in pt.__mro__:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(d, types.FunctionType):
                    return types.MethodType(d, self)
                if isinstance(d, property):
                    return d.fget(self)
                if isinstance(d, classmethod):
                    return types.MethodType(d.__func__, pt)
                if isinstance(d, staticmethod):
                    return d.__func__
                if c is int:
                    unsupported("int attribute %s" % name)
                return d
        raise AttributeError("%r object has no attribute %r" % (pt.__name__, name))

    # -- formatting --------------------------------------------------------------
    def __str__(self):
        return MARK

    def __repr__(self):
        return MARK

    def __format__(self, spec):
        return MARK

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _common(a, b, lo, hi):
    w = width_for(lo, hi)
    return ext(a[0], a[1], w), ext(b[0], b[1], w)


def _add(a, b):
    lo, hi = a[2] + b[2], a[3] + b[3]
    x, y = _common(a, b, lo, hi)
    return mkint(tm.bvadd(x, y), lo, hi)


def _sub(a, b):
    lo, hi = a[2] - b[3], a[3] - b[2]
    w = width_for(min(lo, 0, a[2], b[2]), max(hi, 0, a[3], b[3]))
    x, y = ext(a[0], a[1], w), ext(b[0], b[1], w)
    return mkint(tm.bvsub(x, y), lo, hi)


def _mul(a, b):
    c = [a[2] * b[2], a[2] * b[3], a[3] * b[2], a[3] * b[3]]
    lo, hi = min(c), max(c)
    x, y = _common(a, b, min(lo, a[2], b[2]), max(hi, a[3], b[3]))
    return mkint(tm.bvmul(x, y), lo, hi)


def _and(a, b):
    if not a[1] and not b[1]:
        lo, hi = 0, min(a[3], b[3])
    elif not a[1]:
        lo, hi = 0, a[3]
    elif not b[1]:
        lo, hi = 0, b[3]
    else:
        w = max(a[0].w, b[0].w)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    w = max(a[0].w, b[0].w) + 1
    return mkint(tm.bvand(ext(a[0], a[1], w), ext(b[0], b[1], w)), lo, hi)


def _orx(a, b, f):
    if not a[1] and not b[1]:
        hi = (1 << max(a[3].bit_length(), b[3].bit_length())) - 1
        lo = max(a[2], b[2]) if f is tm.bvor else 0
        w = max(a[0].w, b[0].w)
    else:
        w = max(a[0].w + (not a[1]), b[0].w + (not b[1]))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mkint(f(ext(a[0], a[1], w), ext(b[0], b[1], w)), lo, hi)


def _or(a, b):
    return _orx(a, b, tm.bvor)


def _xor(a, b):
    return _orx(a, b, tm.bvxor)


def byteint(t):
    return mkint(t, 0, 255)


def int_from_bytes(b, byteorder, signed=False, cls=int):
    els = list(b)
    if byteorder == "little":
        els = els[::-1]
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not els:
        return cls(0)
    t = tm.concat([byteterm(x) for x in els])
    w = t.w
    if signed:
        r = mkint(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    else:
        r = mkint(t, 0, (1 << w) - 1)
    if cls is not int:
        return typed_int(cls, r)
    return r


def byteterm(x):
    if type(x) is SymInt:
        return ext(x._t(), False, 8)
    return tm.const(int(x), 8)


def typed_int(cls, v):
    """cls(v) for an int subclass and a (maybe symbolic) v."""
    if type(v) is SymBool:
        v = v._as_int()
    if type(v) is not SymInt:
        return cls(v)
    if cls is int:
        return v.plain()
    if cls is bool:
        return bool(v)
    if isinstance(cls, enum.EnumMeta):
        return enum_of(cls, v)
    size, signed = getattr(cls, "_size", None), getattr(cls, "_signed", None)
    if size is not None:
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if (v.lo < lo and not (v >= lo)) or (v.hi > hi and not (v <= hi)):
            raise ValueError("value out of range for %s" % cls.__name__)
    elif cls.__dict__.get("__new__") is not None:
        return cls(v.concrete())
    return SymInt(v.t, v.lo, v.hi, cls)


def enum_of(cls, v):
    if v.pytype is cls:
        return v
    if issubclass(cls, enum.Flag):
        size = getattr(cls, "_size", None)
        if size is not None and ((v.lo < 0 and not (v >= 0)) or
                                 (v.hi >> (8 * size) and not (v < (1 << (8 * size))))):
            raise ValueError("%s is not a valid %s" % (MARK, cls.__name__))
        if size is not None or issubclass(cls, enum.IntFlag):
            return SymInt(v.t, v.lo, v.hi, cls)
        return cls(v.concrete())
    for member in cls.__members__.values():
        if isinstance(member.value, int) and (v == int(member.value)):
            return member
    missing = None
    for c in cls.__mro__:
        if "_missing_" in c.__dict__:
            missing = c
            break
    if missing is enum.Enum:
        raise ValueError("%s is not a valid %s" % (MARK, cls.__name__))
    size = getattr(cls, "_size", None)
    if size is not None and getattr(cls, "_member_type_", None) is not None:
        if (v.lo < 0 and not (v >= 0)) or (v.hi >> (8 * size) and not (v < (1 << (8 * size)))):
            raise ValueError("%s is not a valid %s" % (MARK, cls.__name__))
        return SymInt(v.t, v.lo, v.hi, cls)
    return cls(v.concrete())


# ---------------------------------------------------------------------- bytes


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is SymBytes or t is SymByteArray


def check_byte(x):
    """x as a bytes element."""
    if type(x) is SymBool:
        x = x._as_int()
    if type(x) is SymInt:
        if x.lo < 0 or x.hi > 255:
            if not (x >= 0) or not (x <= 255):
                raise ValueError("byte must be in range(0, 256)")
            return byteint(ext(x._t(), x.lo < 0, 8))
        return x.plain()
    if isinstance(x, int):
        v = int(x)
    elif hasattr(type(x), "__index__"):
        v = x.__index__()
    else:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return v


def mkbytes(els, cls=None):
    if cls is SymByteArray:
        return SymByteArray(els)
    for x in els:
        if type(x) is SymInt:
            return SymBytes(els)
    return bytes(els)


def conc_index(i):
    return i.concrete() if type(i) in (SymInt,) else i


def conc_slice(s):
    return slice(conc_index(s.start), conc_index(s.stop), conc_index(s.step))


def bytes_like(o):
    return type(o) in (SymBytes, SymByteArray, bytes, bytearray, memoryview) or isinstance(
        o, (bytes, bytearray, memoryview))


class SymBytes:
    """Immutable bytes of concrete length with (maybe) symbolic elements."""

    __slots__ = ("e",)
    _py = bytes

    def __init__(self, els):
        self.e = list(els)

    __class__ = property(lambda self: type(self)._py)

    def __len__(self):
        return len(self.e)

    def __iter__(self):
        return iter(list(self.e))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.e[conc_slice(i)], type(self))
        return self.e[conc_index(i)]

    def __add__(self, o):
        if not bytes_like(o):
            return NotImplemented
        return mkbytes(self.e + list(o), type(self))

    def __radd__(self, o):
        if not bytes_like(o):
            return NotImplemented
        return mkbytes(list(o) + self.e, SymByteArray if isinstance(o, bytearray) else None)

    def __mul__(self, n):
        return mkbytes(self.e * conc_index(n), type(self))

    __rmul__ = __mul__

    def __mod__(self, o):
        unsupported("bytes % formatting")

    def __bool__(self):
        return len(self.e) > 0

    def __eq__(self, o):
        if not bytes_like(o):
            return NotImplemented
        o = list(o)
        if len(o) != len(self.e):
            return False
        return mkbool(tm.and_(*[tm.eq(byteterm(a), byteterm(b)) for a, b in zip(self.e, o)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def _less(self, o, strict):
        a, b = self.e, list(o)
        for x, y in zip(a, b):
            if x == y:
                continue
            return bool(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        return not self._less(o, False)

    def __ge__(self, o):
        return not self._less(o, True)

    def __hash__(self):
        if eng.CUR is not None and eng.CUR.keyed:
            return KEY_HASH
        return hash(self.concrete())

    def concrete(self):
        return bytes([x.concrete() if type(x) is SymInt else x for x in self.e])

    def __contains__(self, x):
        if bytes_like(x):
            return self.find(x) >= 0
        x = check_byte(x)
        return bool(mkbool(tm.or_(*[tm.eq(byteterm(a), byteterm(x)) for a in self.e])))

    def __bytes__(self):
        return self.concrete()

    def find(self, sub, start=0, end=None):
        n = len(self.e)
        start, end, _ = slice(conc_index(start), conc_index(end)).indices(n)
        pat = [check_byte(sub)] if not bytes_like(sub) else list(sub)
        for i in range(start, end - len(pat) + 1):
            if SymBytes(self.e[i:i + len(pat)]) == mkbytes(pat):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rfind(self, sub, start=0, end=None):
        n = len(self.e)
        start, end, _ = slice(conc_index(start), conc_index(end)).indices(n)
        pat = [check_byte(sub)] if not bytes_like(sub) else list(sub)
        for i in range(end - len(pat), start - 1, -1):
            if SymBytes(self.e[i:i + len(pat)]) == mkbytes(pat):
                return i
        return -1

    def count(self, sub):
        pat = [check_byte(sub)] if not bytes_like(sub) else list(sub)
        n = i = 0
        while i <= len(self.e) - len(pat):
            if SymBytes(self.e[i:i + len(pat)]) == mkbytes(pat):
                n += 1
                i += max(1, len(pat))
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        b = self.e[conc_index(start):conc_index(end)]
        return bool(len(b) >= len(p) and mkbytes(b[:len(p)]) == p)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        b = self.e[conc_index(start):conc_index(end)]
        return bool(len(b) >= len(p) and (not len(p) or mkbytes(b[-len(p):]) == p))

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out += self.e
            out += list(x)
        return mkbytes(out, type(self))

    def ljust(self, n, fill=b" "):
        return mkbytes(self.e + list(fill) * max(0, conc_index(n) - len(self.e)), type(self))

    def rjust(self, n, fill=b" "):
        return mkbytes(list(fill) * max(0, conc_index(n) - len(self.e)) + self.e, type(self))

    def _strip(self, chars, left, right):
        e = list(self.e)
        cs = list(b" \t\n\r\x0b\x0c" if chars is None else chars)
        while left and e and any(e[0] == c for c in cs):
            e.pop(0)
        while right and e and any(e[-1] == c for c in cs):
            e.pop()
        return mkbytes(e, type(self))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def partition(self, sep):
        i = self.find(sep)
        c = type(self)
        if i < 0:
            return mkbytes(self.e, c), mkbytes([], c), mkbytes([], c)
        return mkbytes(self.e[:i], c), mkbytes(list(sep), c), mkbytes(self.e[i + len(sep):], c)

    def rpartition(self, sep):
        i = self.rfind(sep)
        c = type(self)
        if i < 0:
            return mkbytes([], c), mkbytes([], c), mkbytes(self.e, c)
        return mkbytes(self.e[:i], c), mkbytes(list(sep), c), mkbytes(self.e[i + len(sep):], c)

    def removeprefix(self, p):
        return mkbytes(self.e[len(p):] if self.startswith(p) else self.e, type(self))

    def removesuffix(self, p):
        return mkbytes(self.e[:len(self.e) - len(p)] if self.endswith(p) else self.e, type(self))

    def replace(self, old, new, count=-1):
        if not len(old):
            unsupported("bytes.replace(b'', ...)")
        out = []
        rest = self.e
        while count != 0:
            i = SymBytes(rest).find(old) if len(rest) else -1
            if i < 0:
                break
            out += rest[:i] + list(new)
            rest = rest[i + len(old):]
            count -= 1
        return mkbytes(out + rest, type(self))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            unsupported("bytes.split()")
        out = []
        rest = self
        while maxsplit != 0:
            i = rest.find(sep) if len(rest) else -1
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def hex(self, *a):
        return MARK

    def decode(self, *a, **k):
        return self.concrete().decode(*a, **k)

    def tobytes(self):
        return mkbytes(self.e)

    def tolist(self):
        return list(self.e)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    @property
    def nbytes(self):
        return len(self.e)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr(bytes, name, None)
        if m is None:
            raise AttributeError("'bytes' object has no attribute %r" % name)
        return getattr(self._py(self.concrete()), name)

    def __str__(self):
        return MARK

    __repr__ = __str__

    def __format__(self, spec):
        return MARK

    def __copy__(self):
        return mkbytes(self.e, type(self))

    def __deepcopy__(self, memo):
        return mkbytes(self.e, type(self))


class SymByteArray(SymBytes):
    """Mutable counterpart (used for every bytearray made by instrumented code)."""

    __slots__ = ()
    _py = bytearray

    __hash__ = None

    def append(self, x):
        self.e.append(check_byte(x))

    def extend(self, it):
        self.e.extend([check_byte(x) for x in it])

    def insert(self, i, x):
        self.e.insert(conc_index(i), check_byte(x))

    def pop(self, i=-1):
        return self.e.pop(conc_index(i))

    def remove(self, x):
        i = self.find(x)
        if i < 0:
            raise ValueError("value not found in bytearray")
        del self.e[i]

    def clear(self):
        self.e.clear()

    def reverse(self):
        self.e.reverse()

    def copy(self):
        return SymByteArray(self.e)

    def __iadd__(self, o):
        self.e.extend([check_byte(x) for x in o])
        return self

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.e[conc_slice(i)] = [check_byte(x) for x in v]
        else:
            self.e[conc_index(i)] = check_byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.e[conc_slice(i)]
        else:
            del self.e[conc_index(i)]

    def __bytes__(self):
        unsupported("native bytes() of symbolic bytearray")
