"""Incremental SMT solver process (SMT-LIB2 over a pipe)."""
import re
import subprocess
import time

from . import terms as tm


class SolverError(Exception):
    pass


_VAL = re.compile(r"\(\s*(\|[^|]*\||[^\s()]+)\s+(#x[0-9a-fA-F]+|#b[01]+|true|false)\s*\)")


def symname(name):
    return "|" + name + "|"


class Solver:
    def __init__(self, cmd, timeout_ms, name):
        self.name = name
        self.p = subprocess.Popen(
            cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, bufsize=1 << 16,
        )
        self.buf = []
        self.defined = set()
        self.vars = {}
        self.level = 0
        self.queries = 0
        self.time = 0.0
        self.max_time = 0.0
        self.results = {"sat": 0, "unsat": 0, "unknown": 0}
        self.send("(set-option :global-declarations true)")
        self.send("(set-option :produce-models true)")
        if "z3" in name:
            self.send("(set-option :timeout %d)" % timeout_ms)
        self.send("(set-logic QF_BV)")

    def send(self, s):
        self.buf.append(s)

    def flush(self):
        if self.buf:
            self.p.stdin.write("\n".join(self.buf) + "\n")
            self.buf = []
        self.p.stdin.flush()

    def ref(self, t):
        """SMT-LIB name of t, defining it (and its sub-terms) if needed."""
        if t.op in ("const", "var"):
            return self._leaf(t)
        stack = [t]
        defined = self.defined
        while stack:
            x = stack[-1]
            if x.op in ("const", "var") or x.id in defined:
                stack.pop()
                continue
            todo = [a for a in x.args if a.op not in ("const", "var") and a.id not in defined]
            if todo:
                stack.extend(todo)
                continue
            self.send("(define-fun t%d () %s %s)" % (x.id, self._sort(x.w), self._body(x)))
            defined.add(x.id)
            stack.pop()
        return "t%d" % t.id

    @staticmethod
    def _sort(w):
        return "Bool" if w == 0 else "(_ BitVec %d)" % w

    def _leaf(self, t):
        if t.op == "const":
            if t.w == 0:
                return "true" if t.val else "false"
            return "(_ bv%d %d)" % (t.val, t.w)
        n = symname(t.val)
        if t.val not in self.vars:
            self.vars[t.val] = t.w
            self.send("(declare-const %s %s)" % (n, self._sort(t.w)))
        return n

    def _body(self, x):
        a = [self._leaf(y) if y.op in ("const", "var") else "t%d" % y.id for y in x.args]
        if x.op == "extract":
            return "((_ extract %d %d) %s)" % (x.val[0], x.val[1], a[0])
        if x.op == "sext":
            return "((_ sign_extend %d) %s)" % (x.w - x.args[0].w, a[0])
        if x.op in ("concat", "bvand", "bvor", "bvxor", "bvadd", "bvmul") and len(a) > 2:
            # left fold: strictly binary in SMT-LIB for some of these
            s = a[0]
            for y in a[1:]:
                s = "(%s %s %s)" % (x.op, s, y)
            return s
        return "(%s %s)" % (x.op, " ".join(a))

    def push(self):
        self.send("(push 1)")
        self.level += 1

    def pop(self, n=1):
        if n > 0:
            self.send("(pop %d)" % n)
            self.level -= n

    def add(self, t):
        r = self.ref(t)
        self.send("(assert %s)" % r)

    def _line(self):
        l = self.p.stdout.readline()
        if not l:
            raise SolverError("%s died" % self.name)
        l = l.strip()
        if l.startswith("(error"):
            raise SolverError("%s: %s" % (self.name, l))
        return l

    def check(self, t=None, model=True):
        """-> ('sat', model) / ('unsat', None) / ('unknown', None) for assertions + t."""
        if t is not None:
            r = self.ref(t)
            self.send("(push 1)")
            self.send("(assert %s)" % r)
        self.send("(check-sat)")
        t0 = time.time()
        self.flush()
        res = self._line()
        dt = time.time() - t0
        self.queries += 1
        self.time += dt
        self.max_time = max(self.max_time, dt)
        if res not in self.results:
            raise SolverError("%s: unexpected answer %r" % (self.name, res))
        self.results[res] += 1
        m = None
        if res == "sat" and model:
            m = self.get_model()
        if t is not None:
            self.send("(pop 1)")
        return res, m

    def get_model(self):
        if not self.vars:
            return {}
        names = list(self.vars)
        self.send("(get-value (%s))" % " ".join(symname(n) for n in names))
        self.flush()
        depth = 0
        out = []
        while True:
            l = self._line()
            out.append(l)
            depth += l.count("(") - l.count(")")
            if depth <= 0:
                break
        m = {}
        for n, v in _VAL.findall(" ".join(out)):
            n = n.strip("|")
            if v.startswith("#x"):
                m[n] = int(v[2:], 16)
            elif v.startswith("#b"):
                m[n] = int(v[2:], 2)
            else:
                m[n] = int(v == "true")
        if len(m) != len(names):
            raise SolverError("model incomplete: %d of %d" % (len(m), len(names)))
        return m

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
        except Exception:
            pass


COMMANDS = {
    "z3": ["z3-new", "-in", "-smt2"],
    "z3old": ["z3", "-in", "-smt2"],
    "cvc5": ["cvc5", "--incremental", "--lang=smt2", "--tlimit-per=60000"],
}


def start(name="z3", timeout_ms=60000):
    cmd = list(COMMANDS[name])
    import shutil
    if name == "z3" and not shutil.which("z3-new"):
        cmd[0] = "z3"
    return Solver(cmd, timeout_ms, name)
