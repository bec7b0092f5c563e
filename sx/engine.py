"""Path exploration: depth-first re-execution with solver-decided branches."""
import os
import time

from . import solver as slv
from . import terms as tm


class SxControl(KeyboardInterrupt):
    """Engine control flow; BaseException so code under test does not swallow it
    (and a KeyboardInterrupt so that asyncio tasks let it through)."""


class PathAbort(SxControl):
    """The path's condition became unsatisfiable, or it must stop here."""


class Inconclusive(SxControl):
    """The engine cannot decide (solver unknown, limits, unsupported operation)."""


class Hang(SxControl):
    """The code under test does not come to an end."""


class Event:
    __slots__ = ("kind", "t", "out", "alt", "val", "asserted")

    def __init__(self, kind, t, out, alt=None, val=None, asserted=False):
        self.kind = kind
        self.t = t
        self.out = out
        self.alt = alt
        self.val = val
        self.asserted = asserted


TRACE = {} if os.environ.get("SX_TRACE") else None
CUR = None  # the engine of the running symbolic case


class Engine:
    def __init__(self, query_timeout_ms=30000, mirror=None):
        self.solver = slv.start("z3", query_timeout_ms)
        self.mirror = slv.start(mirror, query_timeout_ms) if mirror else None
        self.trail = []
        self.pos = 0
        self.model = {}
        self.memo = {}
        self.known = {}
        self.subst = {}
        self.keyed = False
        self.dirty = False
        self.aborting = None
        self.dead = True
        self.stats = {
            "paths": 0, "paths_infeasible": 0, "branches": 0, "implied": 0,
            "checks": 0, "checks_solver": 0, "checks_simplified": 0, "max_depth": 0,
            "nodes": 0,
        }
        self.deadline = None
        self.violations = []
        self.path_checks = None

    # -- solver access ----------------------------------------------------
    def _query(self, t):
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(Inconclusive("case time limit"))
        try:
            r, m = self.solver.check(t)
        except slv.SolverError as e:
            self.abort(Inconclusive(str(e)))
        if self.mirror is not None:
            try:
                r2, _ = self.mirror.check(t, model=False)
            except slv.SolverError as e:
                self.abort(Inconclusive(str(e)))
            if r2 != r and "unknown" not in (r, r2):
                self.abort(Inconclusive("solvers disagree: %s %s" % (r, r2)))
        if r == "unknown":
            self.abort(Inconclusive("solver answered unknown"))
        return r == "sat", m

    def _assert(self, t):
        for s in (self.solver, self.mirror):
            if s is not None:
                s.push()
                s.add(t)

    def _pop(self, n):
        for s in (self.solver, self.mirror):
            if s is not None:
                s.pop(n)

    # -- control ------------------------------------------------------------
    def abort(self, exc):
        self.aborting = exc
        raise exc

    def guard(self):
        if self.aborting is not None:
            raise self.aborting
        if self.dead:
            raise PathAbort("engine used outside a path")

    def value(self, t):
        return tm.evaluate(t, self.model, self.memo)

    def set_model(self, m):
        self.model = m
        self.memo = {}

    def _replay(self, kind, t):
        """Next event of the recorded prefix, or None when exploring."""
        if self.pos < len(self.trail):
            ev = self.trail[self.pos]
            if ev.kind != kind or (t is not None and ev.t is not t):
                self.abort(Inconclusive(
                    "non-deterministic execution: event %d was %s %r, now %s %r"
                    % (self.pos, ev.kind, ev.t, kind, t)))
            self.pos += 1
            return ev
        return None

    def _new(self, ev):
        self.trail.append(ev)
        self.pos += 1
        self.stats["nodes"] += 1
        if len(self.trail) > self.stats["max_depth"]:
            self.stats["max_depth"] = len(self.trail)

    def _learn(self, t, out):
        self.known[t.id] = out
        n = tm.not_(t)
        self.known[n.id] = not out
        if out and t.op == "=" and t.args[1].op == "const":
            self.subst[t.args[0].id] = t.args[1]
        if (out and t.op == "and") or (not out and t.op == "or"):
            for a in t.args:
                self._learn(a, out)
        if out is False and t.op == "not":
            self._learn(t.args[0], True)

    # -- operations -----------------------------------------------------------
    def branch(self, t):
        self.guard()
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        k = self.known.get(t.id)
        if k is not None:
            return k
        ev = self._replay("B", t)
        if ev is None:
            v = bool(self.value(t))
            sat, m = self._query(tm.not_(t) if v else t)
            if sat:
                self.stats["branches"] += 1
                ev = Event("B", t, v, alt=m, asserted=True)
                self._assert(t if v else tm.not_(t))
            else:
                self.stats["implied"] += 1
                ev = Event("B", t, v)
            self._new(ev)
        self._learn(t, ev.out)
        return ev.out

    def concretize(self, t, order=None):
        """A concrete value for t; all feasible ones are explored."""
        self.guard()
        if t.op == "const":
            return t.val
        s = self.subst.get(t.id)
        if s is not None:
            return s.val
        if TRACE is not None and self.pos >= len(self.trail):
            import traceback
            fr = [x for x in traceback.extract_stack() if "/sx/" not in x.filename][-2:]
            k = " <- ".join("%s:%d %s" % (x.filename.split("/")[-1], x.lineno, x.line) for x in reversed(fr))
            TRACE[k] = TRACE.get(k, 0) + 1
        while True:
            ev = self._replay("V", t)
            if ev is None:
                self._new(Event("V", t, True, val=self.value(t)))
                ev = self.trail[-1]
            v = ev.val
            if self.branch(tm.eq(t, tm.const(v, t.w))):
                self.subst[t.id] = tm.const(v, t.w)
                return v

    def assume(self, t):
        self.guard()
        if t is tm.TRUE:
            return
        ev = self._replay("A", t)
        if ev is None:
            if t is tm.FALSE:
                self.abort(PathAbort("assumption false"))
            if not self.value(t):
                sat, m = self._query(t)
                if not sat:
                    self.abort(PathAbort("assumption infeasible"))
                self.set_model(m)
            self._assert(t)
            self._new(Event("A", t, True, asserted=True))
        self._learn(t, True)

    def check(self, t, label, info=None):
        """Property assertion: t must hold for every value on this path."""
        self.guard()
        ev = self._replay("C", t)
        if ev is not None:
            if t is tm.FALSE:
                self.abort(PathAbort("assertion fails on the whole path"))
            if ev.asserted:
                self._learn(t, True)
            return
        self.stats["checks"] += 1
        m = None
        if t is tm.TRUE:
            self.stats["checks_simplified"] += 1
        elif self.known.get(t.id) is True:
            self.stats["checks_simplified"] += 1
        else:
            self.stats["checks_solver"] += 1
            if t is tm.FALSE or not self.value(t):
                m = dict(self.model)
            else:
                sat, mm = self._query(tm.not_(t))
                if sat:
                    m = mm
        ev = Event("C", t, True)
        if m is not None:
            self.violation(label, m, info)
            if t is tm.FALSE:
                self.abort(PathAbort("assertion fails on the whole path"))
            if not self.value(t):
                sat, mm = self._query(t)
                if not sat:
                    self.abort(PathAbort("assertion fails on the whole path"))
                self.set_model(mm)
            self._assert(t)
            ev.asserted = True
        self._new(ev)
        if ev.asserted:
            self._learn(t, True)

    def violation(self, label, model, info=None):
        if sum(1 for v in self.violations if v["label"] == label) < 3:
            self.violations.append({"label": label, "model": dict(model), "info": info})

    # -- exploration ----------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.known = {}
        self.subst = {}
        self.keyed = False
        self.dirty = False
        self.aborting = None
        self.dead = False

    def end_path(self):
        self.dead = True
        self.aborting = None

    def next_path(self):
        """Prepare the next unexplored path; False when there is none."""
        popn = 0
        while self.trail:
            ev = self.trail[-1]
            if ev.asserted:
                popn += 1
            if ev.alt is not None:
                self._pop(popn)
                ev.out = not ev.out
                self._assert(ev.t if ev.out else tm.not_(ev.t))
                self.set_model(ev.alt)
                ev.alt = None
                return True
            self.trail.pop()
        self._pop(popn)
        return False

    def close(self):
        self.solver.close()
        if self.mirror is not None:
            self.mirror.close()
