"""Deterministic virtual-time asyncio event loop (integer microseconds, which may be
symbolic), used identically for symbolic execution and for native replay."""
import asyncio
import collections
import sys
import time


class Deadlock(Exception):
    """Nothing is scheduled any more but the awaited future is not done."""


class StepLimit(Exception):
    pass


class SymTime:
    """loop.time() when the clock is symbolic: a number of seconds held in us."""

    def __init__(self, us):
        self.us = us

    @staticmethod
    def conv(o):
        if isinstance(o, SymTime):
            return o.us
        return to_us(o)

    def __add__(self, o):
        return SymTime(self.us + self.conv(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymTime(self.us - self.conv(o))

    def __rsub__(self, o):
        return SymTime(self.conv(o) - self.us)

    def __lt__(self, o):
        return self.us < self.conv(o)

    def __le__(self, o):
        return self.us <= self.conv(o)

    def __gt__(self, o):
        return self.us > self.conv(o)

    def __ge__(self, o):
        return self.us >= self.conv(o)

    def __eq__(self, o):
        return self.us == self.conv(o)

    __hash__ = None


def to_us(sec):
    if isinstance(sec, SymTime):
        return sec.us
    if type(sec) is float or type(sec) is int:
        return int(round(sec * 1000000))
    if hasattr(sec, "lo"):  # symbolic int
        return sec * 1000000
    return int(round(float(sec) * 1000000))


class Clock:
    """Stands in for module `time` in the code under test: the loop's time."""

    BASE = 1600000000

    def __init__(self, loop):
        self.loop = loop

    def time(self):
        return self.BASE + self.loop.time()

    def monotonic(self):
        return self.loop.time()

    perf_counter = process_time = monotonic

    def monotonic_ns(self):
        return self.loop.now * 1000

    perf_counter_ns = monotonic_ns

    def time_ns(self):
        return (self.BASE * 1000000 + self.loop.now) * 1000

    def __getattr__(self, name):
        return getattr(time, name)


CLOCKED = ("time", "monotonic", "perf_counter", "process_time", "monotonic_ns", "perf_counter_ns", "time_ns")


def virtual_time(loop):
    """Give the modules of the code under test the loop's clock."""
    clock = Clock(loop)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "zigpy_cc" and m is not None:
            for k, x in list(vars(m).items()):
                if x is time or type(x) is Clock:
                    setattr(m, k, clock)
                elif k in CLOCKED and (x is getattr(time, k) or type(getattr(x, "__self__", None)) is Clock):
                    setattr(m, k, getattr(clock, k))


class Timer(asyncio.TimerHandle):
    when_us = 0
    seq = 0


class VLoop(asyncio.AbstractEventLoop):
    def __init__(self, max_steps=200000):
        self.now = 0
        self._ready = collections.deque()
        self._timers = []
        self._seq = 0
        self._tasks = []
        self._max_steps = max_steps
        self.steps = 0
        self.errors = []
        self.closed = False

    # -- scheduling ---------------------------------------------------------
    def time(self):
        if type(self.now) is int:
            return self.now / 1000000
        return SymTime(self.now)

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self._ready.append(h)
        return h

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def call_at_us(self, when, callback, *args, context=None):
        h = Timer(0.0, callback, args, self, context)
        h.when_us = when
        self._seq += 1
        h.seq = self._seq
        self._timers.append(h)
        return h

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at_us(self.now + to_us(delay), callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        return self.call_at_us(to_us(when), callback, *args, context=context)

    def _timer_handle_cancelled(self, handle):
        try:
            self._timers.remove(handle)
        except ValueError:
            pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None):
        t = asyncio.Task(coro, loop=self, name=name)
        self._tasks.append(t)
        return t

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return self.closed

    def close(self):
        self.closed = True

    def call_exception_handler(self, context):
        if not self.closed:
            self.errors.append(context)

    def default_exception_handler(self, context):
        self.call_exception_handler(context)

    # -- running -------------------------------------------------------------
    def _earliest(self):
        best = None
        for h in self._timers:
            if best is None or h.when_us < best.when_us:
                best = h
        return best

    def _step(self, limit=None):
        """Run one callback; False when nothing is left (up to time `limit`)."""
        self.steps += 1
        if self.steps > self._max_steps:
            raise StepLimit("more than %d event loop steps" % self._max_steps)
        if not self._ready:
            h = self._earliest()
            if h is None:
                return False
            if limit is not None and h.when_us > limit:
                return False
            self._timers.remove(h)
            if h.when_us > self.now:
                self.now = h.when_us
            if not h._cancelled:
                self._ready.append(h)
            return True
        h = self._ready.popleft()
        if not h._cancelled:
            h._run()
        return True

    def run(self, coro):
        """Run until coro is done; result or exception of it."""
        fut = coro if asyncio.isfuture(coro) else self.create_task(coro)
        while not fut.done():
            if not self._step():
                raise Deadlock()
        return fut.result()

    def settle(self):
        """Run everything that is ready now, without letting time pass."""
        while self._ready:
            self._step()

    def run_until(self, us):
        """Run everything due up to time `us` (inclusive) and set the clock to it."""
        while self._step(us):
            pass
        if us > self.now:
            self.now = us

    def run_for(self, us):
        self.run_until(self.now + us)

    def drain(self):
        while self._step():
            pass

    def dispose(self):
        self.closed = True
        self._ready.clear()
        self._timers.clear()
        for t in self._tasks:
            t._log_destroy_pending = False
            if not t.done():
                try:
                    t._coro.close()
                except BaseException:
                    pass
            t._log_traceback = False
        self._tasks = []


def install(loop):
    asyncio._set_running_loop(loop)
    asyncio.set_event_loop(loop)


def uninstall():
    asyncio._set_running_loop(None)
