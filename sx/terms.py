"""Hash-consed bit-vector / boolean terms with normalisation.

Width 0 means boolean.  Terms are immutable; identical terms are the same object,
so syntactic equality is `is`.  Normal forms are chosen so that byte-level
encode/decode round trips cancel syntactically: concatenations are flattened,
extracts are pushed into concatenations, and/or/shift with constants become
concat/extract, xor is n-ary, sorted and cancelling.
"""


class T:
    __slots__ = ("op", "args", "w", "val", "id", "neg")

    def __init__(self, op, args, w, val, id):
        self.op = op
        self.args = args
        self.w = w
        self.val = val
        self.id = id
        self.neg = None

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]

# RAW: build terms without rewriting (constant folding only), so that the solver, and
# not this module, discharges the algebra.
RAW = False


def _mk(op, args, w, val=None):
    key = (op, w, val, tuple([a.id for a in args]))
    t = _table.get(key)
    if t is None:
        _count[0] += 1
        t = T(op, tuple(args), w, val, _count[0])
        _table[key] = t
    return t


def reset(raw=False):
    """Forget everything (terms of a finished case are dead)."""
    _table.clear()
    _count[0] = 0
    global TRUE, FALSE, RAW
    RAW = raw
    TRUE = _mk("const", (), 0, 1)
    FALSE = _mk("const", (), 0, 0)


TRUE = _mk("const", (), 0, 1)
FALSE = _mk("const", (), 0, 0)


def const(v, w):
    return _mk("const", (), w, v & ((1 << w) - 1))


def boolc(b):
    return TRUE if b else FALSE


def var(name, w):
    return _mk("var", (), w, name)


def is_const(t):
    return t.op == "const"


# ---------------------------------------------------------------- bit vectors


def pieces(t):
    return t.args if t.op == "concat" else (t,)


def concat(parts):
    """parts from most to least significant."""
    out = []
    if RAW:
        out = [p for p in parts if p.w]
        if len(out) == 1:
            return out[0]
        if all(p.op == "const" for p in out):
            v = 0
            for p in out:
                v = (v << p.w) | p.val
            return const(v, sum([p.w for p in out]))
        return _mk("concat", out, sum([p.w for p in out]))
    for p in parts:
        for q in pieces(p):
            if q.w == 0:
                continue
            if out:
                l = out[-1]
                if l.op == "const" and q.op == "const":
                    out[-1] = const((l.val << q.w) | q.val, l.w + q.w)
                    continue
                lb, lh, ll = _ext(l)
                qb, qh, ql = _ext(q)
                if lb is qb and ll == qh + 1:
                    out[-1] = extract(lh, ql, lb)
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return _mk("concat", out, sum([p.w for p in out]))


def _ext(t):
    if t.op == "extract":
        return t.args[0], t.val[0], t.val[1]
    return t, t.w - 1, 0


def extract(hi, lo, t):
    w = hi - lo + 1
    if w == t.w:
        return t
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    if t.op == "const":
        return const(t.val >> lo, w)
    if RAW:
        return _mk("extract", (t,), w, (hi, lo))
    if t.op == "extract":
        b, h, l = _ext(t)
        return extract(l + hi, l + lo, b)
    if t.op == "concat":
        out = []
        pos = t.w
        for p in t.args:
            ph = pos - 1
            pl = pos - p.w
            pos = pl
            if ph < lo or pl > hi:
                continue
            out.append(extract(min(ph, hi) - pl, max(pl, lo) - pl, p))
        return concat(out)
    if t.op in ("bvand", "bvor", "bvxor"):
        return _bitwise(t.op, [extract(hi, lo, a) for a in t.args], w)
    if t.op == "ite":
        return ite(t.args[0], extract(hi, lo, t.args[1]), extract(hi, lo, t.args[2]))
    if lo == 0 and t.op in ("bvadd", "bvmul"):
        return _arith(t.op, [extract(hi, 0, a) for a in t.args], w)
    return _mk("extract", (t,), w, (hi, lo))


def zext(t, w):
    if w == t.w:
        return t
    return concat([const(0, w - t.w), t])


def sext(t, w):
    if w == t.w:
        return t
    if t.op == "const":
        v = t.val - (1 << t.w) if t.val >> (t.w - 1) else t.val
        return const(v, w)
    if not RAW and t.op == "concat" and t.args[0].op == "const":
        top = t.args[0].val >> (t.args[0].w - 1)
        n = w - t.w
        return concat([const((1 << n) - 1 if top else 0, n), t])
    return _mk("sext", (t,), w)


def _bounds(t):
    pos = t.w
    res = []
    for p in pieces(t):
        pos -= p.w
        res.append(pos)
    return res


def _bitwise(op, args, w):
    if RAW:
        if all(a.op == "const" for a in args):
            v = args[0].val
            for a in args[1:]:
                v = v & a.val if op == "bvand" else v | a.val if op == "bvor" else v ^ a.val
            return const(v, w)
        return _mk(op, args, w)
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    # split at constant pieces so that masking/merging happens piecewise
    if any(a.op == "concat" for a in flat) or (
        op != "bvxor" and any(a.op == "const" and a.val not in (0, (1 << w) - 1) for a in flat)
    ):
        cuts = {0, w}
        useful = False
        for a in flat:
            if a.op == "concat":
                pos = w
                for p in a.args:
                    pos -= p.w
                    cuts.add(pos)
                useful = True
            elif a.op == "const" and op != "bvxor":
                prev = a.val & 1
                for i in range(1, w):
                    b = (a.val >> i) & 1
                    if b != prev:
                        cuts.add(i)
                        prev = b
                        useful = True
        if useful and len(cuts) > 2:
            cs = sorted(cuts)
            segs = []
            for i in range(len(cs) - 1, 0, -1):
                hi, lo = cs[i] - 1, cs[i - 1]
                segs.append(_bitwise(op, [extract(hi, lo, a) for a in flat], hi - lo + 1))
            return concat(segs)
    ones = (1 << w) - 1
    if op == "bvand":
        c = ones
    else:
        c = 0
    rest = {}
    for a in flat:
        if a.op == "const":
            if op == "bvand":
                c &= a.val
            elif op == "bvor":
                c |= a.val
            else:
                c ^= a.val
        elif op == "bvxor":
            if a.id in rest:
                del rest[a.id]
            else:
                rest[a.id] = a
        else:
            rest[a.id] = a
    if op == "bvand":
        if c == 0:
            return const(0, w)
    elif op == "bvor":
        if c == ones:
            return const(ones, w)
    lst = [rest[k] for k in sorted(rest)]
    if op == "bvand":
        if c != ones:
            lst.append(const(c, w))
    elif c != 0:
        lst.append(const(c, w))
    if not lst:
        return const(c, w)
    if len(lst) == 1:
        return lst[0]
    return _mk(op, lst, w)


def bvand(a, b):
    return _bitwise("bvand", [a, b], a.w)


def bvor(a, b):
    return _bitwise("bvor", [a, b], a.w)


def bvxor(a, b):
    return _bitwise("bvxor", [a, b], a.w)


def bvnot(a):
    return _bitwise("bvxor", [a, const((1 << a.w) - 1, a.w)], a.w)


def _arith(op, args, w):
    mask = (1 << w) - 1
    if RAW and not all(a.op == "const" for a in args):
        return _mk(op, args, w)
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    c = 0 if op == "bvadd" else 1
    rest = []
    for a in flat:
        if a.op == "const":
            c = (c + a.val) & mask if op == "bvadd" else (c * a.val) & mask
        else:
            rest.append(a)
    rest.sort(key=lambda t: t.id)
    if op == "bvmul":
        if c == 0:
            return const(0, w)
        if rest and c != 1 and c & (c - 1) == 0:
            return shl(_arith(op, rest, w), c.bit_length() - 1)
        if c != 1 or not rest:
            rest.append(const(c, w))
    else:
        if len(rest) > 1 and c == 0:
            # disjoint addition = or  (e.g. lo + (hi << 8))
            m = _disjoint(rest, w)
            if m is not None:
                return m
        elif len(rest) >= 1 and c:
            m = _disjoint(rest + [const(c, w)], w)
            if m is not None:
                return m
        if c != 0 or not rest:
            rest.append(const(c, w))
    if len(rest) == 1:
        return rest[0]
    return _mk(op, rest, w)


def _maybe_mask(t):
    """bits of t that may be one."""
    if t.op == "const":
        return t.val
    if t.op == "concat":
        m = 0
        for p in t.args:
            m = (m << p.w) | _maybe_mask(p)
        return m
    return (1 << t.w) - 1


def _disjoint(args, w):
    seen = 0
    for a in args:
        m = _maybe_mask(a)
        if seen & m:
            return None
        seen |= m
    return _bitwise("bvor", args, w)


def bvadd(a, b):
    return _arith("bvadd", [a, b], a.w)


def bvneg(a):
    if a.op == "const":
        return const(-a.val, a.w)
    return _arith("bvmul", [a, const(-1, a.w)], a.w)


def bvsub(a, b):
    return bvadd(a, bvneg(b))


def bvmul(a, b):
    return _arith("bvmul", [a, b], a.w)


def shl(a, n):
    if n == 0:
        return a
    if n >= a.w:
        return const(0, a.w)
    return concat([extract(a.w - n - 1, 0, a), const(0, n)])


def lshr(a, n):
    if n == 0:
        return a
    if n >= a.w:
        return const(0, a.w)
    return concat([const(0, n), extract(a.w - 1, n, a)])


def udiv(a, b):
    if is_const(b) and b.val:
        if is_const(a):
            return const(a.val // b.val, a.w)
        if b.val & (b.val - 1) == 0:
            return lshr(a, b.val.bit_length() - 1)
    return _mk("bvudiv", (a, b), a.w)


def urem(a, b):
    if is_const(b) and b.val:
        if is_const(a):
            return const(a.val % b.val, a.w)
        if b.val & (b.val - 1) == 0:
            return bvand(a, const(b.val - 1, a.w))
    return _mk("bvurem", (a, b), a.w)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        return or_(and_(c, a), and_(not_(c), b))
    return _mk("ite", (c, a, b), a.w)


# -------------------------------------------------------------------- boolean


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), 0)


def _nary(op, args, unit, zero):
    d = {}
    for a in args:
        for x in a.args if a.op == op else (a,):
            if x is zero:
                return zero
            if x is unit:
                continue
            d[x.id] = x
    for x in list(d.values()):
        if x.op == "not" and x.args[0].id in d:
            return zero
    if not d:
        return unit
    lst = [d[k] for k in sorted(d)]
    if len(lst) == 1:
        return lst[0]
    return _mk(op, lst, 0)


def and_(*args):
    return _nary("and", args, TRUE, FALSE)


def or_(*args):
    return _nary("or", args, FALSE, TRUE)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == "const" and b.op == "const":
        return boolc(a.val == b.val)
    if RAW:
        if a.op == "const":
            a, b = b, a
        elif b.op != "const" and a.id > b.id:
            a, b = b, a
        return _mk("=", (a, b), 0)
    if a.op == "concat" or b.op == "concat":
        cuts = {a.w, 0}
        for t in (a, b):
            if t.op == "concat":
                cuts.update(_bounds(t))
        cs = sorted(cuts)
        out = []
        for i in range(len(cs) - 1):
            e = eq(extract(cs[i + 1] - 1, cs[i], a), extract(cs[i + 1] - 1, cs[i], b))
            if e is FALSE:
                return FALSE
            out.append(e)
        return and_(*out)
    if a.op == "bvxor" or b.op == "bvxor":
        x = bvxor(a, b)
        if x.op == "const":
            return boolc(x.val == 0)
        if x.op == "bvxor":
            if x.args[-1].op == "const":
                rest = x.args[:-1]
                c = x.args[-1]
                l = rest[0] if len(rest) == 1 else _mk("bvxor", rest, a.w)
                return _mk("=", (l, c), 0)
            return _mk("=", (x, const(0, a.w)), 0)
        if x.op == "concat":
            return eq(x, const(0, a.w))
        return _mk("=", (x, const(0, a.w)), 0)
    if a.op == "const":
        a, b = b, a
    if a.op == "ite" and b.op == "const":
        return or_(and_(a.args[0], eq(a.args[1], b)), and_(not_(a.args[0]), eq(a.args[2], b)))
    if b.op != "const" and a.id > b.id:
        a, b = b, a
    return _mk("=", (a, b), 0)


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return boolc(a.val < b.val)
    if b.op == "const" and b.val == 0:
        return FALSE
    if a.op == "const" and a.val == (1 << a.w) - 1:
        return FALSE
    # common leading pieces / zero prefix
    return _mk("bvult", (a, b), 0)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        s = 1 << (a.w - 1)
        return boolc((a.val ^ s) < (b.val ^ s))
    return _mk("bvslt", (a, b), 0)


# ----------------------------------------------------------------- evaluation


def _ev(t, m, memo):
    op = t.op
    if op == "const":
        return t.val
    if op == "var":
        return m.get(t.val, 0)
    a = [memo[x.id] for x in t.args]
    w = t.w
    mask = (1 << w) - 1
    if op == "concat":
        v = 0
        for x, y in zip(t.args, a):
            v = (v << x.w) | y
        return v
    if op == "extract":
        return (a[0] >> t.val[1]) & mask
    if op == "sext":
        iw = t.args[0].w
        v = a[0]
        if v >> (iw - 1):
            v -= 1 << iw
        return v & mask
    if op == "bvand":
        v = mask
        for x in a:
            v &= x
        return v
    if op == "bvor":
        v = 0
        for x in a:
            v |= x
        return v
    if op == "bvxor":
        v = 0
        for x in a:
            v ^= x
        return v
    if op == "bvadd":
        return sum(a) & mask
    if op == "bvmul":
        v = 1
        for x in a:
            v = (v * x) & mask
        return v
    if op == "bvudiv":
        return a[0] // a[1] if a[1] else mask
    if op == "bvurem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "not":
        return 1 - a[0]
    if op == "and":
        return int(all(a))
    if op == "or":
        return int(any(a))
    if op == "=":
        return int(a[0] == a[1])
    if op == "bvult":
        return int(a[0] < a[1])
    if op == "bvslt":
        s = 1 << (t.args[0].w - 1)
        return int((a[0] ^ s) < (a[1] ^ s))
    raise AssertionError(op)


def evaluate(t, m, memo):
    """Value of t under model m (missing variables are 0); memo: id -> value."""
    v = memo.get(t.id)
    if v is not None:
        return v
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [y for y in x.args if y.id not in memo]
        if todo:
            stack.extend(todo)
        else:
            memo[x.id] = _ev(x, m, memo)
            stack.pop()
    return memo[t.id]


def show(t, depth=6):
    if t.op == "const":
        return "%d:%d" % (t.val, t.w) if t.w else str(bool(t.val))
    if t.op == "var":
        return str(t.val)
    if depth == 0:
        return "..."
    return "(%s%s %s)" % (
        t.op,
        "" if t.val is None else str(t.val),
        " ".join(show(a, depth - 1) for a in t.args),
    )
