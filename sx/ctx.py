"""The context a harness runs in: symbolic (SymCtx) or native replay (ConcCtx)."""
import enum

from . import engine as eng
from . import terms as tm
from . import values as v
from .loop import VLoop, install, uninstall


class Stop(Exception):
    """Harness ends the path early (nothing more to look at)."""


def deq(a, b):
    """Deep equality as a (maybe symbolic) boolean, without forking."""
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if v.bytes_like(a) or v.bytes_like(b):
        if not (v.bytes_like(a) and v.bytes_like(b)):
            return False
        if len(a) != len(b):
            return False
        return v.mkbool(tm.and_(*[tm.eq(v.byteterm(x), v.byteterm(y)) for x, y in zip(a, b)]))
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return conj([deq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return False
        return conj([deq(a[k], b[k]) for k in a])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not v.is_sym(a) and not v.is_sym(b):
            return int(a) == int(b) if isinstance(a, int) and isinstance(b, int) else a == b
        return a == b
    return a == b


def conj(xs):
    return v.mkbool(tm.and_(*[v.bterm(x) for x in xs]))


def disj(xs):
    return v.mkbool(tm.or_(*[v.bterm(x) for x in xs]))


class Base:
    def __init__(self):
        self.loop = VLoop()
        self.names = {}
        self.observations = []
        self.covered = set()
        self.cleanups = []

    def _fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s~%d" % (name, n)

    # derived -------------------------------------------------------------------
    def byte(self, name):
        return self.int(name, 0, 255)

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def bytes(self, name, n):
        return v.mkbytes([self.byte("%s[%d]" % (name, i)) for i in range(n)])

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[v.conc_index(i)]

    def eq(self, a, b):
        return deq(a, b)

    def all(self, xs):
        return conj(xs)

    def any(self, xs):
        return disj(xs)

    def neg(self, x):
        return v.lnot(x)

    def implies(self, a, b):
        return disj([v.lnot(a), b])

    def observe(self, label, value):
        self.observations.append((label, freeze(value)))

    def cover(self, label):
        self.covered.add(label)

    def fail(self, label, info=None):
        self.check(False, label, info)
        raise Stop()

    def stop(self):
        raise Stop()

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        self.cleanups.append(lambda: setattr(obj, name, old))

    def begin(self):
        install(self.loop)

    def finish(self):
        for c in reversed(self.cleanups):
            c()
        self.cleanups = []
        self.loop.dispose()
        uninstall()

    def run(self, coro):
        return self.loop.run(coro)


def freeze(x):
    if isinstance(x, (list, tuple)) and not isinstance(x, (str, bytes)):
        return [freeze(y) for y in x]
    if isinstance(x, dict):
        return {str(k): freeze(x[k]) for k in x}
    if type(x) is v.SymByteArray:
        return v.SymBytes(x.e)
    if isinstance(x, bytearray):
        return bytes(x)
    return x


def norm(x, ev=None):
    """JSON-able form; ev evaluates terms under a model."""
    t = type(x)
    if t is v.SymInt:
        val = ev(x.t)
        if x.lo < 0 and val >> (x.t.w - 1):
            val -= 1 << x.t.w
        return val
    if t is v.SymBool:
        return bool(ev(x.t))
    if t in (v.SymBytes, v.SymByteArray):
        return "hex:" + bytes([norm(e, ev) for e in x.e]).hex()
    if x is None or t is bool or t is str:
        return x
    if isinstance(x, (bytes, bytearray)):
        return "hex:" + bytes(x).hex()
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return x
    if isinstance(x, (list, tuple)):
        return [norm(y, ev) for y in x]
    if isinstance(x, dict):
        return {str(k): norm(y, ev) for k, y in x.items()}
    if isinstance(x, enum.Enum):
        return str(x)
    return "%s" % type(x).__name__


class SymCtx(Base):
    sym = True

    def __init__(self, engine):
        super().__init__()
        self.e = engine
        self.inputs = {}

    def int(self, name, lo, hi):
        name = self._fresh(name)
        if lo == hi:
            return lo
        off = lo if lo < 0 else 0
        w = v.width_for(0, hi - off)
        t = tm.var("%s:%d" % (name, w), w)
        self.inputs[name] = (t, off)
        x = v.mkint(t, 0, (1 << w) - 1)
        if hi - off != (1 << w) - 1:
            self.e.assume(v.bterm(x <= hi - off))
        if off == 0 and lo > 0:
            self.e.assume(v.bterm(x >= lo))
        if off:
            return v.mkint(v._add((t, False, 0, hi - off), v.parts(off)).t, lo, hi)
        return v.mkint(t, lo, hi)

    def assume(self, c):
        self.e.assume(v.bterm(c))

    def check(self, c, label, info=None):
        self.e.check(v.bterm(c), label, info)

    def input_values(self, model):
        return {n: model.get(t.val, 0) + off for n, (t, off) in self.inputs.items()}


class ConcCtx(Base):
    sym = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.failed = []
        self.assumption_failed = False

    def int(self, name, lo, hi):
        name = self._fresh(name)
        x = self.inputs.get(name, max(lo, 0) if hi >= 0 else lo)
        if not lo <= x <= hi:
            x = lo
        return x

    def assume(self, c):
        if not c:
            self.assumption_failed = True
            raise Stop()

    def check(self, c, label, info=None):
        if not c and label not in self.failed:
            self.failed.append(label)
